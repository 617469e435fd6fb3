-------------------------- MODULE GraphStreamTrace --------------------------
EXTENDS GraphStream, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "set" -> Set(e.x, e.g) [] e.op = "copy" -> Copy(e.x, e.y) [] e.op = "put" -> Put(e.x, e.lim)
    [] e.op = "get" -> Get(e.x) \/ GetNone(e.x) [] e.op = "cut" -> Cut(e.x) [] e.op = "putfail" -> PutFail(e.x, e.lim)
    [] e.op = "rewind" -> Rewind
Start == /\ var' = [x \in 1..3 |-> <<>>] /\ q' = <<>> /\ rd' = 0 /\ ev' = [op |-> "init"]
TraceInit == var = [x \in 1..3 |-> <<>>] /\ q = <<>> /\ rd = 0 /\ ev = [op |-> "init"] /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN Start ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<var, q, rd, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
