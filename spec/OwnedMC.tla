------------------------------ MODULE OwnedMC ------------------------------
(* Every history within small bounds.                                       *)
EXTENDS Owned
CONSTANTS NB, NX, MaxObj, MaxLen, Shapes, Emitting
N(v, l) == [v |-> v, l |-> l]
Structures == CASE Shapes = "one" -> {<<>>, <<N(5, <<0, 0>>)>>}
                [] Shapes = "tree" -> {<<N(5, <<0, 2>>), N(6, <<0, 0>>)>>, <<N(5, <<2, 2>>), N(6, <<0, 0>>)>>}
                [] Shapes = "graph" -> {<<N(5, <<0, 2>>), N(6, <<1, 2>>)>>, <<N(7, <<1, 1>>)>>}
Small == /\ Cardinality(Held(buf', lst')) <= MaxObj /\ Len(obj') <= MaxObj
         /\ \A b \in 1..NB : Len(buf'[b].q) <= 1 /\ Len(buf'[b].held) <= MaxLen
         /\ \A x \in 1..NX : Len(lst'[x]) <= MaxLen
B == 1..NB
X == 1..NX
Init == obj = <<>> /\ buf = [b \in B |-> NoBuf] /\ lst = [x \in X |-> <<>>] /\ ev = [op |-> "init"]
Step == \/ \E b \in B : (\E g \in Structures : Put(b, g)) \/ Get(b) \/ Rewind(b) \/ Cut(b) \/ ClearB(b) \/ Renew(b) \/ MoveNew(b)
        \/ \E x \in X, b \in B : Copy(x, b) \/ Add(x, b) \/ Give(b, x) \/ (\E i \in 1..MaxObj : Pick(x, b, i))
        \/ \E x, y \in X : Assign(x, y)
        \/ \E x \in X : Clear(x) \/ DropList(x) \/ (\E i \in 1..MaxObj : Erase(x, i)) \/ (\E i, j \in 1..MaxObj : Over(x, i, j))
        \/ \E b \in B, i \in 1..MaxObj : EraseB(b, i)
        \/ \E b, c \in B : Swap(b, c) \/ Move(b, c)
Next == Step /\ Small
Spec == Init /\ [][Next]_vars
\* exactly the objects that some list holds exist
Ownership == LET h == Held(buf, lst) IN \A i \in 1..Len(obj) : (obj[i].v # -1) <=> i \in h
\* an object's own data does not change while it lives, other than through links to objects that died
Stable == [][\A i \in 1..Len(obj) : (i <= Len(obj') /\ obj[i].v # -1 /\ obj'[i].v # -1) => obj'[i].v = obj[i].v]_vars
State == [obj |-> obj, buf |-> buf, lst |-> lst]
Emit == Emitting => PrintT(ToJson(<<State, ev', [obj |-> obj', buf |-> buf', lst |-> lst']>>))
MCView == <<obj, buf, lst>>
=============================================================================
