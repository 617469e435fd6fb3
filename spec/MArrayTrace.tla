---------------------------- MODULE MArrayTrace ----------------------------
EXTENDS MArray
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) == CASE e.op = "new" -> New(e.ctor, e.d) [] e.op = "set" -> Set(e.c, e.v) [] e.op = "get" -> Get(e.c, e.k)
             [] e.op = "sub" -> Sub(e.c, e.k) [] e.op = "iterate" -> Iterate(e.how) [] e.op = "place" -> Place(e.where)
             [] e.op = "move" -> Move(e.how, e.n) [] e.op = "poke" -> Poke(e.c, e.v)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN dims' = <<1>> /\ mem' = Fresh(1) /\ it' = 0 - 1 /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<dims, mem, it, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
