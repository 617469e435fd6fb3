---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS Factory
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) == CASE e.op = "register" -> Register(e.f, e.n, e.k) [] e.op = "own" -> RegisterOwn(e.f, e.k)
             [] e.op = "create" -> Create(e.f, e.n) [] e.op = "change" -> Change(e.i, e.v)
             [] e.op = "destroy" -> Destroy [] e.op = "copy" -> Copy(e.f, e.g) [] e.op = "renew" -> Renew(e.f)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN reg' = [f \in F |-> Fresh] /\ made' = <<>> /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<reg, made, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
