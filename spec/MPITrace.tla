------------------------------ MODULE MPITrace ------------------------------
EXTENDS MPI
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Set(s) == {s[i] : i \in 1..Len(s)}
Known(a, b) == \A f \in DOMAIN a: IF f \in {"proc", "tag"} /\ a[f] = Unknown THEN TRUE ELSE IF f = "done" THEN {x - 1 : x \in a[f]} = Set(b[f]) /\ Len(b[f]) = Cardinality(a[f]) ELSE a[f] = b[f]
Ret(r, x) ==
  LET o == doing[r].op IN
  /\ o # "none"
  /\ CASE o \in {"get", "sendrecv"} -> \E i \in 0..Len(chan): (IF o = "get" THEN RetGet(r, i) ELSE RetSendRecv(r, i))
       [] o \in Joins -> RetColl(r)
       [] o \in {"send", "isend"} -> RetSend(r)
       [] o \in Local -> RetLocal(r)
       [] o = "sent" -> RetSent(r, x.flag)
       [] o = "waiting" -> RetWaiting(r, x.flag)
       [] o = "who" -> RetWho(r)
       [] OTHER -> \E S \in (IF "done" \in DOMAIN x THEN {{d + 1 : d \in Set(x.done)}} ELSE SUBSET (1..3)): RetArray(r, S, IF "flag" \in DOMAIN x THEN x.flag ELSE 0)
  /\ DOMAIN ev'.obs = DOMAIN x /\ Known(ev'.obs, x)
Step(e) == CASE e.ph = "call" -> Call(e.r, e.o) [] e.ph = "ret" -> Ret(e.r, e.obs) [] e.ph = "end" -> End(e.r)
             [] e.ph = "stuck" -> Stuck({w - 1 : w \in Set(e.who)}) [] OTHER -> FALSE
TraceInit == Start(1) /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].ph = "restart" THEN Restart(Trace[l].n) ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<n, chan, buf, arr, doing, coll, cnt, l>>
TraceAccepted == LET k == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(k)) /\ k = Len(Trace)
=============================================================================
