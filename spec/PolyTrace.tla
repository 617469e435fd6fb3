----------------------------- MODULE PolyTrace -----------------------------
EXTENDS Poly
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
S == INSTANCE ObjStreamTrace
Step(e) ==
  CASE e.op = "clone" -> Clone(e.s, e.u)
    [] e.op = "cast" -> Cast(e.s, e.u, e.k)
    [] e.op = "poke" -> Poke(e.s, e.obs.vals[e.s])
    [] e.op = "spare" -> Spare
    [] OTHER -> S!Step(e)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN ty' = <<>> /\ val' = <<>> /\ q' = <<>> /\ rd' = 0 /\ ids' = {} /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<ty, val, q, rd, ids, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
