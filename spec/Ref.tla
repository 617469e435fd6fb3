-------------------------------- MODULE Ref --------------------------------
(* Reference-counted references: variables and members that refer to        *)
(* objects or to nothing. An object is alive while something refers to it.  *)
(* Objects are numbered by a traversal from the variables; objects kept     *)
(* alive only by cycles come after those that can be reached.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NV,      \* variables
          NL,      \* links per object
          Vals,    \* values of objects
          MaxObj,  \* objects alive
          MaxPath  \* links followed in a place
VARIABLES var,     \* variable -> object (0: null)
          heap,    \* sequence of [v, l]
          ev
vars == <<var, heap, ev>>

Obj(h) == 1..Len(h)
(* references to object o *)
Refs(va, h, o) == Cardinality({x \in 1..NV : va[x] = o}) + Cardinality({<<p, i>> \in Obj(h) \X (1..NL) : h[p].l[i] = o})

(* ---- normal form: dead objects removed, live ones numbered by traversal *)
Drop(va, h, o) ==     \* o is referred to by nothing
  LET m(i) == IF i > o THEN i - 1 ELSE i
      g == [i \in 1..(Len(h) - 1) |-> LET j == IF i >= o THEN i + 1 ELSE i IN [v |-> h[j].v, l |-> [k \in 1..NL |-> m(h[j].l[k])]]]
  IN <<[x \in 1..NV |-> m(va[x])], g>>
RECURSIVE Collect(_, _)
Collect(va, h) == LET dead == {o \in Obj(h) : Refs(va, h, o) = 0}
                  IN IF dead = {} THEN <<va, h>>
                     ELSE LET r == Drop(va, h, CHOOSE o \in dead : TRUE) IN Collect(r[1], r[2])
(* breadth first: q still to visit, s seen, in order *)
RECURSIVE Walk(_, _, _)
Walk(h, q, s) == IF q = <<>> THEN s
                 ELSE LET o == Head(q) IN
                      IF o = 0 \/ o \in ToSet(s) THEN Walk(h, Tail(q), s)
                      ELSE Walk(h, Tail(q) \o h[o].l, Append(s, o))
Order(va, h) == LET s == Walk(h, va, <<>>) IN s \o SetToSortSeq(Obj(h) \ ToSet(s), <)
Reach(va, h) == Len(Walk(h, va, <<>>))
Norm(va, h) == LET c == Collect(va, h)
                   o == Order(c[1], c[2])
                   m(i) == IF i = 0 THEN 0 ELSE CHOOSE j \in 1..Len(o) : o[j] = i
               IN <<[x \in 1..NV |-> m(c[1][x])], [i \in 1..Len(o) |-> [v |-> c[2][o[i]].v, l |-> [k \in 1..NL |-> m(c[2][o[i]].l[k])]]]>>

(* ---- places: a variable, or a link of an object reached from one *)
RECURSIVE At(_, _)
At(o, path) == IF o = 0 THEN -1 ELSE IF Len(path) = 1 THEN heap[o].l[path[1]] ELSE At(heap[o].l[path[1]], Tail(path))
Get(p) == IF p.path = <<>> THEN var[p.x] ELSE At(var[p.x], p.path)       \* -1: there is no such place
Paths == UNION {[1..n -> 1..NL] : n \in 0..MaxPath}
Place == [x : 1..NV, path : Paths]
Is(p) == Get(p) >= 0
RECURSIVE Holder(_, _)
Holder(o, path) == IF Len(path) = 1 THEN o ELSE Holder(heap[o].l[path[1]], Tail(path))
(* the whole state after the link at p is made to refer to o in heap h *)
Put(p, o, h) == IF p.path = <<>> THEN Norm([var EXCEPT ![p.x] = o], h)
                ELSE Norm(var, [h EXCEPT ![Holder(var[p.x], p.path)].l[p.path[Len(p.path)]] = o])

View(r) == [var |-> r[1], live |-> Len(r[2]), errs |-> 0,
            obj |-> [i \in 1..Reach(r[1], r[2]) |-> [v |-> r[2][i].v, l |-> r[2][i].l, n |-> Refs(r[1], r[2], i)]]]
Become(r, e) == /\ Len(r[2]) <= MaxObj /\ var' = r[1] /\ heap' = r[2] /\ ev' = e @@ [obs |-> View(r)]
Null == [i \in 1..NL |-> 0]

Init == var = [x \in 1..NV |-> 0] /\ heap = <<>> /\ ev = [op |-> "init"]

Assign(p, q) == Is(p) /\ Is(q) /\ Become(Put(p, Get(q), heap), [op |-> "assign", p |-> p, q |-> q])
(* p = *q : a new object, equal to the target of q, replaces the target of p *)
AssignTarget(p, q) == /\ Is(p) /\ Get(q) > 0
                      /\ Become(Put(p, Len(heap) + 1, Append(heap, heap[Get(q)])), [op |-> "assigntarget", p |-> p, q |-> q])
AssignVal(p, v) == Is(p) /\ Become(Put(p, Len(heap) + 1, Append(heap, [v |-> v, l |-> Null])), [op |-> "assignval", p |-> p, v |-> v])
(* writing through a reference; a null one gets a default object first *)
Store(p, v) == /\ Is(p)
               /\ Become(IF Get(p) = 0 THEN Put(p, Len(heap) + 1, Append(heap, [v |-> v, l |-> Null]))
                         ELSE Norm(var, [heap EXCEPT ![Get(p)].v = v]), [op |-> "store", p |-> p, v |-> v])
(* reading through a non-const reference also creates the default object *)
Touch(p) == /\ Is(p)
            /\ Become(IF Get(p) = 0 THEN Put(p, Len(heap) + 1, Append(heap, [v |-> 0, l |-> Null])) ELSE <<var, heap>>, [op |-> "touch", p |-> p])
(* *p = *q : assignment between objects, through the references *)
CopyInto(p, q) == /\ Get(p) > 0 /\ Get(q) > 0
                  /\ Become(Norm(var, [heap EXCEPT ![Get(p)] = heap[Get(q)]]), [op |-> "copyinto", p |-> p, q |-> q])
Nullify(p) == Is(p) /\ Become(Put(p, 0, heap), [op |-> "nullify", p |-> p])
Swap(p, q) == /\ Is(p) /\ Is(q) /\ p # q
              /\ LET a == Get(p)  b == Get(q)
                     h1 == IF p.path = <<>> THEN heap ELSE [heap EXCEPT ![Holder(var[p.x], p.path)].l[p.path[Len(p.path)]] = b]
                     v1 == IF p.path = <<>> THEN [var EXCEPT ![p.x] = b] ELSE var
                     h2 == IF q.path = <<>> THEN h1 ELSE [h1 EXCEPT ![Holder(var[q.x], q.path)].l[q.path[Len(q.path)]] = a]
                     v2 == IF q.path = <<>> THEN [v1 EXCEPT ![q.x] = a] ELSE v1
                 IN Become(Norm(v2, h2), [op |-> "swap", p |-> p, q |-> q])
(* the lifetime of variables *)
Renew(x) == Become(Put([x |-> x, path |-> <<>>], 0, heap), [op |-> "renew", x |-> x])
RenewFrom(x, q) == /\ Is(q) /\ q.x # x    \* a new variable, copied from q, takes the place of x
                   /\ Become(Put([x |-> x, path |-> <<>>], Get(q), heap), [op |-> "renewfrom", x |-> x, q |-> q])
RenewVal(x, v) == Become(Put([x |-> x, path |-> <<>>], Len(heap) + 1, Append(heap, [v |-> v, l |-> Null])), [op |-> "renewval", x |-> x, v |-> v])
(* n more references to the same object, for a while *)
Crowd(p, n) == /\ Is(p) /\ UNCHANGED <<var, heap>>
               /\ ev' = [op |-> "crowd", p |-> p, n |-> n,
                         obs |-> View(<<var, heap>>) @@ [peak |-> IF Get(p) = 0 THEN 0 ELSE Refs(var, heap, Get(p)) + n, alive |-> Len(heap)]]
(* tests: sharing, null tests, count, comparison with a pointer and with a value *)
B(c) == IF c THEN 1 ELSE 0
Ask(p, q, v) == /\ Is(p) /\ Is(q) /\ UNCHANGED <<var, heap>>
                /\ LET a == Get(p)  b == Get(q) IN
                   ev' = [op |-> "ask", p |-> p, q |-> q, v |-> v,
                          obs |-> [eq |-> B(a = b), ne |-> B(a # b), null |-> B(a = 0), bool |-> B(a # 0),
                                   count |-> IF a = 0 THEN 0 ELSE Refs(var, heap, a),
                                   ptr |-> IF b = 0 THEN -1 ELSE B(a = b),
                                   val |-> B(a # 0 /\ (IF a = 0 THEN FALSE ELSE heap[a].v = v)),
                                   \* deep comparison of null references with values is not asked
                                   lt |-> B(a = b)]]

Next == \/ \E p, q \in Place : Assign(p, q) \/ AssignTarget(p, q) \/ CopyInto(p, q) \/ Swap(p, q)
        \/ \E p \in Place : Touch(p) \/ Nullify(p) \/ \E v \in Vals : AssignVal(p, v) \/ Store(p, v)
        \/ \E x \in 1..NV : Renew(x) \/ (\E q \in Place : RenewFrom(x, q)) \/ \E v \in Vals : RenewVal(x, v)
        \/ \E p, q \in Place : Ask(p, q, 0)
        \/ \E p \in Place : Crowd(p, 300)
Spec == Init /\ [][Next]_vars

(* ---- the properties *)
NoDangling == /\ \A x \in 1..NV : var[x] \in 0..Len(heap)
              /\ \A o \in Obj(heap) : \A i \in 1..NL : heap[o].l[i] \in 0..Len(heap)
AliveIffReferred == \A o \in Obj(heap) : Refs(var, heap, o) > 0
Normal == Norm(var, heap) = <<var, heap>>
(* an object that is still referred to keeps its value unless written through a reference *)
Writes == {"store", "copyinto"}
KeepValue == [][ev'.op \notin Writes => \A x \in 1..NV : (ev'.op \in {"assign", "nullify", "touch", "ask"} /\ ev'.p.path = <<>> /\ ev'.p.x # x /\ var[x] # 0)
                   => (var'[x] # 0 /\ heap'[var'[x]].v = heap[var[x]].v)]_vars
State == [var |-> var, heap |-> heap]
MCView == <<var, heap>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
=============================================================================
