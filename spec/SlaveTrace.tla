----------------------------- MODULE SlaveTrace -----------------------------
EXTENDS Slave
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Elems(s) == {s[i] : i \in 1..Len(s)}
Same(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a: IF f = "idle" THEN a.idle = Elems(b.idle) /\ Len(b.idle) = Cardinality(a.idle) ELSE a[f] = b[f]
Step(e) == CASE e.ph = "begin" -> Same(See(idle), e.obs) /\ UNCHANGED vars
             [] e.ph = "call" -> \E s \in 0..(n - 1): Call(e.o, s)
             [] e.ph = "ret" -> (\E s \in 0..(n - 1): (s > 0 \/ master.op # "get") /\ Ret(s)) /\ Same(ev'.obs, e.obs)
             [] e.ph = "run" -> e.r \in Slaves /\ Run(e.r) /\ ev'.m = e.m /\ ev'.x = e.x
             [] e.ph = "exit" -> e.r \in Slaves /\ Exit(e.r) /\ e.rc = 0 /\ e.finalised = 1
             [] e.ph = "end" -> End [] e.ph = "over" -> Over
             [] OTHER -> FALSE
TraceInit == Set(2) /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].ph = "restart" THEN Again(Trace[l].n) ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<n, idle, inbox, back, sum, state, master, l>>
TraceAccepted == LET k == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(k)) /\ k = Len(Trace)
=============================================================================
