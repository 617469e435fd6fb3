--------------------------- MODULE TypeNameTrace ---------------------------
(* Are the names a program saw those of its types? *)
EXTENDS TypeName
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN t' = Void /\ ev' = [op |-> "init"]
                ELSE Is(Trace[l].t) /\ Trace[l].obs = ev'.obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
