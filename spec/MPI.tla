-------------------------------- MODULE MPI --------------------------------
(* Processes that exchange the contents of buffers.  Every operation has a  *)
(* call and a return, between which those of other processes may come.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES n,      \* processes 0..n-1
          chan,   \* messages on their way: [id, src, dst, tag, comm, data], in the order of their sending
          buf,    \* process -> <<buffer, buffer>>
          arr,    \* process -> group of buffers: the message outstanding, or 0, of each
          doing,  \* process -> the operation it is in
          coll,   \* communicator -> collective operations begun: [kind, root, data: process -> what it gave]
          cnt,    \* communicator -> process -> how many of these it has joined
          ids, ev
vars == <<n, chan, buf, arr, doing, coll, cnt, ids, ev>>
P == 0..(n - 1)
Unknown == 0 - 1
Wild == 0 - 1
Blank == [cont |-> <<>>, pos |-> 0, marks |-> <<>>, proc |-> Unknown, tag |-> Unknown, const |-> 0, comm |-> 0, out |-> 0]
Idle == [op |-> "none"]
Start(k) == /\ n = k /\ chan = <<>> /\ buf = [p \in 0..(k - 1) |-> <<Blank, Blank>>] /\ arr = [p \in 0..(k - 1) |-> <<0, 0, 0>>]
            /\ doing = [p \in 0..(k - 1) |-> Idle] /\ coll = [c \in {0, 1} |-> <<>>] /\ cnt = [c \in {0, 1} |-> [p \in 0..(k - 1) |-> 0]]
            /\ ids = 1 /\ ev = [op |-> "init"]
Restart(k) == /\ n' = k /\ chan' = <<>> /\ buf' = [p \in 0..(k - 1) |-> <<Blank, Blank>>] /\ arr' = [p \in 0..(k - 1) |-> <<0, 0, 0>>]
              /\ doing' = [p \in 0..(k - 1) |-> Idle] /\ coll' = [c \in {0, 1} |-> <<>>] /\ cnt' = [c \in {0, 1} |-> [p \in 0..(k - 1) |-> 0]]
              /\ ids' = 1 /\ ev' = [op |-> "init"]
InChan(id) == \E i \in 1..Len(chan): chan[i].id = id
Fits(m, r, p, t, c) == m.dst = r /\ m.comm = c /\ (p = Wild \/ m.src = p) /\ (t = Wild \/ m.tag = t)
(* what a receive may take: of every sender, the first that fits *)
Matching(r, p, t, c) == {i \in 1..Len(chan) : Fits(chan[i], r, p, t, c) /\ \A j \in 1..(i - 1): ~(Fits(chan[j], r, p, t, c) /\ chan[j].src = chan[i].src)}
Without(i) == SubSeq(chan, 1, i - 1) \o SubSeq(chan, i + 1, Len(chan))
Message(r, d, t, b, c) == [id |-> ids, src |-> r, dst |-> d, tag |-> t, comm |-> c, data |-> b]
Sends == {"send", "isend", "sendrecv"}
Joins == {"bcast", "gather", "scatter"}
RECURSIVE Concat(_, _)
Concat(f, k) == IF k < 0 THEN <<>> ELSE Concat(f, k - 1) \o f[k]
(* the parts of a marked buffer *)
Parts(b) == [p \in P |-> SubSeq(b.cont, (IF p = 0 THEN 0 ELSE b.marks[p]) + 1, b.marks[p + 1])]
-----------------------------------------------------------------------------
Call(r, o) ==
  /\ doing[r].op = "none"
  /\ UNCHANGED <<n, buf, arr>>
  /\ CASE o.op \in Sends /\ o.d # r ->
            /\ chan' = Append(chan, Message(r, o.d, o.t, buf[r][o.b].cont, buf[r][o.b].comm)) /\ ids' = ids + 1
            /\ doing' = [doing EXCEPT ![r] = o @@ [id |-> ids]] /\ UNCHANGED <<coll, cnt>>
       [] o.op = "aisend" /\ o.d # r ->
            /\ chan' = Append(chan, Message(r, o.d, o.t, o.v, 0)) /\ ids' = ids + 1
            /\ doing' = [doing EXCEPT ![r] = o @@ [id |-> ids]] /\ UNCHANGED <<coll, cnt>>
       [] o.op \in Joins ->
            LET b == buf[r][o.b]  c == b.comm  k == cnt[c][r] + 1
                d == IF o.op = "scatter" THEN (IF r = o.root THEN Parts(b) ELSE <<>>) ELSE b.cont
            IN /\ o.op = "scatter" /\ r = o.root => Len(b.marks) = n
               /\ cnt' = [cnt EXCEPT ![c][r] = k]
               /\ IF k > Len(coll[c]) THEN coll' = [coll EXCEPT ![c] = Append(@, [kind |-> o.op, root |-> o.root, data |-> (r :> d)])]
                  ELSE coll[c][k].kind = o.op /\ coll[c][k].root = o.root /\ coll' = [coll EXCEPT ![c][k].data = @ @@ (r :> d)]
               /\ doing' = [doing EXCEPT ![r] = o @@ [nr |-> k]] /\ UNCHANGED <<chan, ids>>
       [] OTHER -> doing' = [doing EXCEPT ![r] = o @@ [id |-> 0]] /\ UNCHANGED <<chan, ids, coll, cnt>>
  /\ ev' = [op |-> "call", r |-> r, o |-> o]
Done(r) == doing' = [doing EXCEPT ![r] = Idle]
Change(r, b, x) == buf' = [buf EXCEPT ![r][b] = x]
Rest == UNCHANGED <<n, arr, coll, cnt, ids>>
Obs(r, x) == ev' = [op |-> "ret", r |-> r, obs |-> x @@ [k |-> 0]]
Flag(r, b, f) == UNCHANGED buf /\ Obs(r, [flag |-> f])
Outstanding(r) == {i \in 1..3 : arr[r][i] # 0}
Arrived(r) == {i \in Outstanding(r) : ~InChan(arr[r][i])}
Clear(r, S) == arr' = [arr EXCEPT ![r] = [i \in 1..3 |-> IF i \in S THEN 0 ELSE @[i]]]
Receive(r, i) == LET m == chan[i]  o == doing[r] IN
   /\ chan' = Without(i)
   /\ Change(r, o.b, [buf[r][o.b] EXCEPT !.cont = m.data, !.pos = 0, !.proc = m.src, !.tag = m.tag])
   /\ Obs(r, [cont |-> m.data, proc |-> m.src, tag |-> m.tag]) /\ Rest /\ Done(r)
(* returns of one kind each; x is what the return may depend on: which message, whether a flag is up *)
RetGet(r, i) == doing[r].op = "get" /\ i \in Matching(r, doing[r].p, doing[r].t, buf[r][doing[r].b].comm) /\ Receive(r, i)
RetSendRecv(r, i) == /\ doing[r].op = "sendrecv"
                     /\ IF doing[r].d = r
                        THEN i = 0 /\ UNCHANGED <<buf, chan>> /\ Rest /\ Done(r) /\ Obs(r, [cont |-> buf[r][doing[r].b].cont, proc |-> Unknown, tag |-> Unknown])
                        ELSE i \in Matching(r, doing[r].p, doing[r].rt, buf[r][doing[r].b].comm) /\ Receive(r, i)
RetColl(r) == LET o == doing[r]  b == buf[r][o.b]  c == coll[b.comm][o.nr]
                  new == CASE o.op = "bcast" -> [b EXCEPT !.cont = c.data[o.root], !.pos = 0]
                           [] o.op = "gather" -> IF r = o.root THEN [b EXCEPT !.cont = Concat(c.data, n - 1), !.pos = 0] ELSE [b EXCEPT !.cont = <<>>, !.pos = Unknown]
                           [] o.op = "scatter" -> [b EXCEPT !.cont = c.data[o.root][r], !.pos = 0, !.marks = <<>>]
              IN /\ o.op \in Joins
                 /\ IF o.op = "gather" THEN r = o.root => DOMAIN c.data = P ELSE o.root \in DOMAIN c.data
                 /\ Change(r, o.b, new) /\ Obs(r, [cont |-> new.cont]) /\ UNCHANGED chan /\ Rest /\ Done(r)
RetSend(r) == LET o == doing[r]  b == buf[r][o.b]
                  new == IF o.d = r THEN b ELSE [b EXCEPT !.cont = <<>>, !.pos = Unknown, !.out = IF o.op = "isend" THEN o.id ELSE @]
              IN /\ o.op \in {"send", "isend"}
                 /\ Change(r, o.b, new) /\ Obs(r, [cont |-> new.cont]) /\ UNCHANGED chan /\ Rest /\ Done(r)
(* operations that concern the process's own buffers *)
Local == {"pack", "unpack", "reset", "mark", "const", "comm", "assign", "copy", "renew", "wait"}
RetLocal(r) ==
  LET o == doing[r]  b == buf[r][o.b]
      new == CASE o.op = "pack" -> [b EXCEPT !.cont = @ \o o.v]
               [] o.op = "unpack" -> [b EXCEPT !.pos = @ + o.k]
               [] o.op = "reset" -> [b EXCEPT !.cont = <<>>, !.pos = 0, !.marks = <<>>, !.tag = 1]
               [] o.op = "mark" -> [b EXCEPT !.marks = Append(@, Len(b.cont))]
               [] o.op = "const" -> [b EXCEPT !.const = o.v]
               [] o.op = "comm" -> [b EXCEPT !.comm = o.v]
               [] o.op = "assign" -> [buf[r][o.s] EXCEPT !.out = 0, !.pos = Unknown]
               [] o.op = "copy" -> [buf[r][o.s] EXCEPT !.out = 0, !.pos = 0]
               [] o.op = "renew" -> Blank
               [] o.op = "wait" -> [b EXCEPT !.out = 0]
  IN /\ o.op \in Local
     /\ o.op = "unpack" => b.pos # Unknown /\ b.pos + o.k <= Len(b.cont)
     /\ o.op \in {"pack", "unpack", "reset", "mark"} => b.out = 0
     /\ Change(r, o.b, new) /\ UNCHANGED chan /\ Rest /\ Done(r)
     /\ Obs(r, CASE o.op = "unpack" -> [vals |-> SubSeq(b.cont, b.pos + 1, b.pos + o.k)]
                 [] o.op \in {"const", "comm"} -> [k |-> 0]
                 [] o.op = "copy" -> [cont |-> new.cont, const |-> new.const, proc |-> new.proc, tag |-> new.tag]
                 [] OTHER -> [cont |-> new.cont])
RetSent(r, f) == LET o == doing[r]  b == buf[r][o.b] IN
   /\ o.op = "sent" /\ (f = 0 => b.out # 0 /\ InChan(b.out))
   /\ buf' = (IF f = 1 THEN [buf EXCEPT ![r][o.b].out = 0] ELSE buf)
   /\ Obs(r, [flag |-> f]) /\ UNCHANGED chan /\ Rest /\ Done(r)
(* a message whose sending has returned is there to be seen *)
RetWaiting(r, f) == LET o == doing[r]  b == buf[r][o.b]  S == Matching(r, o.p, o.t, b.comm) IN
   /\ o.op = "waiting"
   /\ IF f = 1 THEN S # {} ELSE \A i \in S: "id" \in DOMAIN doing[chan[i].src] /\ doing[chan[i].src].id = chan[i].id
   /\ Flag(r, b, f) /\ UNCHANGED chan /\ Rest /\ Done(r)
RetWho(r) == doing[r].op = "who" /\ UNCHANGED <<buf, chan>> /\ Rest /\ Done(r) /\ Obs(r, [me |-> r, n |-> n])
RetArray(r, S, f) ==
  LET o == doing[r]  out == Outstanding(r) IN
  /\ UNCHANGED <<n, chan, buf, coll, cnt, ids>> /\ Done(r)
  /\ CASE o.op = "aisend" -> S = {} /\ arr' = (IF o.d = r THEN arr ELSE [arr EXCEPT ![r][o.i] = o.id]) /\ Obs(r, [k |-> 0])
       [] o.op \in {"awaitall", "arenew"} -> S = out /\ Clear(r, S) /\ Obs(r, [k |-> 0])
       [] o.op = "atestall" -> (IF f = 1 THEN S = out ELSE S = {} /\ Arrived(r) # out) /\ Clear(r, S) /\ Obs(r, [flag |-> f])
       [] o.op = "awaitany" -> S \subseteq out /\ Cardinality(S) = (IF out = {} THEN 0 ELSE 1) /\ Clear(r, S)
       [] o.op = "atestany" -> S \subseteq out /\ Cardinality(S) \in (IF Arrived(r) = {} THEN {0, 1} ELSE {1}) /\ Clear(r, S)
       [] o.op = "awaitsome" -> Arrived(r) \subseteq S /\ S \subseteq out /\ (out # {} => S # {}) /\ Clear(r, S)
       [] o.op = "atestsome" -> Arrived(r) \subseteq S /\ S \subseteq out /\ Clear(r, S)
  /\ o.op \in {"awaitany", "atestany", "awaitsome", "atestsome"} => Obs(r, [done |-> S])
End(r) == /\ doing[r].op = "none" /\ doing' = [doing EXCEPT ![r] = [op |-> "end"]]
          /\ UNCHANGED <<n, chan, buf, arr, coll, cnt, ids>> /\ ev' = [op |-> "end", r |-> r]
-----------------------------------------------------------------------------
(* Whether the operation a process is in cannot return. *)
Blocked(r) == LET o == doing[r] IN
  CASE o.op = "get" -> Matching(r, o.p, o.t, buf[r][o.b].comm) = {}
    [] o.op = "send" -> o.id # 0 /\ InChan(o.id)
    [] o.op = "sendrecv" -> o.d # r /\ (InChan(o.id) \/ Matching(r, o.p, o.rt, buf[r][o.b].comm) = {})
    [] o.op \in {"wait", "renew", "assign", "copy"} -> InChan(buf[r][o.b].out)
    [] o.op \in Joins -> DOMAIN coll[buf[r][o.b].comm][o.nr].data # P
    [] o.op \in {"awaitall", "arenew"} -> Arrived(r) # Outstanding(r)
    [] o.op \in {"awaitany", "awaitsome"} -> Outstanding(r) # {} /\ Arrived(r) = {}
    [] o.op = "end" -> Arrived(r) # Outstanding(r) \/ \E b \in 1..2: InChan(buf[r][b].out)
    [] OTHER -> FALSE
Stuck(who) == (\A r \in who: Blocked(r)) /\ (\A r \in P \ who: doing[r].op = "end") /\ UNCHANGED <<n, chan, buf, arr, doing, coll, cnt, ids>> /\ ev' = [op |-> "stuck"]
=============================================================================
