------------------------------- MODULE MPIMC -------------------------------
(* Every program and every schedule of a few operations. *)
EXTENDS MPI
CONSTANTS Procs, MaxOps, Mode, Tags
VARIABLES made, got        \* messages ever sent; process -> messages received, in order
mvars == <<vars, made, got>>
Value(r) == 10 * (r + 1) + Cardinality({i \in made : i.src = r}) + Len(buf[r][1].cont)
Point == {[op |-> "send", b |-> 1, d |-> d, t |-> t] : d \in P, t \in Tags} \cup {[op |-> "isend", b |-> 1, d |-> d, t |-> 0] : d \in P}
         \cup {[op |-> "get", b |-> 1, p |-> p, t |-> t] : p \in P \cup {Wild}, t \in (Tags \ {1}) \cup {Wild}}
         \cup {[op |-> "sendrecv", b |-> 1, d |-> d, t |-> 0, p |-> p, rt |-> 0] : d \in P, p \in P \cup {Wild}} \cup {[op |-> "wait", b |-> 1]}
Together == {[op |-> k, b |-> 1, root |-> q] : k \in Joins, q \in P} \cup {[op |-> "mark", b |-> 1]}
Ops(r) == {[op |-> "pack", b |-> 1, v |-> <<Value(r)>>]} \cup (IF Mode = "point" THEN Point ELSE Together)
Usable(r, o) == /\ o.op \notin {"wait"} => buf[r][1].out = 0
                /\ o.op = "scatter" /\ o.root = r => Len(buf[r][1].marks) = n /\ \A i \in 1..n: buf[r][1].marks[i] <= Len(buf[r][1].cont)
                /\ o.op \in Joins /\ cnt[0][r] < Len(coll[0]) => coll[0][cnt[0][r] + 1].kind = o.op /\ coll[0][cnt[0][r] + 1].root = o.root
                /\ o.op = "mark" => Len(buf[r][1].marks) < n
                /\ o.op = "pack" => Len(buf[r][1].cont) < 2 - Len(buf[r][1].marks)
Total == ids + cnt[0][0] + cnt[0][1]
MCInit == Start(Procs) /\ made = {} /\ got = [p \in P |-> <<>>]
CallOf(r, o) == Usable(r, o) /\ Call(r, o) /\ made' = made \cup {chan'[i] : i \in 1..Len(chan')} /\ UNCHANGED got
Taken == LET S == {chan[i] : i \in 1..Len(chan)} \ {chan'[i] : i \in 1..Len(chan')} IN S
RetOf(r) == /\ \/ \E i \in 0..Len(chan): RetGet(r, i) \/ RetSendRecv(r, i)
               \/ RetColl(r) \/ RetSend(r) \/ RetLocal(r)
            /\ UNCHANGED made
            /\ got' = IF Taken = {} THEN got ELSE [got EXCEPT ![r] = Append(@, CHOOSE m \in Taken : TRUE)]
MCNext == \E r \in P: \/ Total <= MaxOps /\ \E o \in Ops(r): CallOf(r, o)
                      \/ doing[r].op # "none" /\ RetOf(r)
MCSpec == MCInit /\ [][MCNext]_mvars
Range(s) == {s[i] : i \in 1..Len(s)}
(* each message is received once, by its addressee, or still on its way *)
Once == /\ \A p, q \in P: p # q => Range(got[p]) \cap Range(got[q]) = {}
        /\ \A p \in P: Cardinality(Range(got[p])) = Len(got[p]) /\ \A m \in Range(got[p]): m.dst = p /\ ~InChan(m.id)
        /\ made = Range(chan) \cup UNION {Range(got[p]) : p \in P}
(* those of one sender with one tag in the order of their sending *)
Order == \A p \in P: \A i, j \in 1..Len(got[p]): i < j /\ got[p][i].src = got[p][j].src /\ got[p][i].tag = got[p][j].tag => got[p][i].id < got[p][j].id
(* contents are those of the sender, whole *)
Whole == [][\A r \in P: ev'.op = "ret" /\ ev'.r = r /\ doing[r].op = "get" => buf'[r][1].cont = got'[r][Len(got'[r])].data /\ buf'[r][1].proc = got'[r][Len(got'[r])].src]_mvars
(* an operation that is not blocked can return *)
Live == \A r \in P: doing[r].op \notin {"none"} => (Blocked(r) \/ ENABLED RetOf(r))
MCView == <<chan, buf, doing, coll, cnt, ids, made, got>>
=============================================================================
