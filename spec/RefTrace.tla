------------------------------ MODULE RefTrace ------------------------------
EXTENDS Ref, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "assign" -> Assign(e.p, e.q) [] e.op = "assigntarget" -> AssignTarget(e.p, e.q)
    [] e.op = "copyinto" -> CopyInto(e.p, e.q) [] e.op = "swap" -> Swap(e.p, e.q)
    [] e.op = "assignval" -> AssignVal(e.p, e.v) [] e.op = "store" -> Store(e.p, e.v)
    [] e.op = "touch" -> Touch(e.p) [] e.op = "nullify" -> Nullify(e.p)
    [] e.op = "renew" -> Renew(e.x) [] e.op = "renewfrom" -> RenewFrom(e.x, e.q) [] e.op = "renewval" -> RenewVal(e.x, e.v)
    [] e.op = "crowd" -> Crowd(e.p, e.n)
    [] e.op = "ask" -> Ask(e.p, e.q, e.v)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN var' = [x \in 1..NV |-> 0] /\ heap' = <<>> /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<var, heap, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
