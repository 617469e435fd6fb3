----------------------------- MODULE CallTrace -----------------------------
EXTENDS Call
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) == CASE e.op \in {"call", "apply", "applyv"} -> Call(e.op, e.f, e.way, e.a)
             [] e.op \in {"bind", "rebind"} -> Bind(e.op, e.f, e.way, e.o)
             [] e.op = "copy" -> Copy(e.f, e.way) [] e.op = "pack" -> Pack(e.f, e.way, e.a)
             [] e.op \in {"run", "runp"} -> Run(e.op, e.f, e.way)
             [] e.op = "clear" -> Clear [] e.op = "describe" -> Describe(e.f)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart"
                THEN sums' = [o \in 1..NObj |-> 0] /\ buf' = <<>> /\ bound' = [f \in FN |-> -1] /\ cbound' = [f \in FN |-> -1] /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<sums, bound, cbound, buf, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
