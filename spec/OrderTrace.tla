----------------------------- MODULE OrderTrace -----------------------------
EXTENDS Order, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* where x must go if the observations are consistent
Below(row) == {at[j] : j \in {j \in 1..Len(at) : row[j][1] = 1}}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN chain' = <<>> /\ at' = <<>> /\ ev' = [op |-> "init"]
                ELSE LET e == Trace[l]
                         p == Max0(Below(e.row))
                     IN /\ Again(e.x, e.row, p + 1) \/ New(e.x, e.row, p)
                        /\ ev' = [op |-> "meet"]
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<chain, at, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
NoContents == {}
=============================================================================
