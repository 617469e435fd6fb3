------------------------------ MODULE XmlTrace ------------------------------
EXTENDS Xml
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Keep == UNCHANGED <<ty, val, docs>>
Step(e) ==
  CASE e.op = "slot" -> NewSlot(e.t) /\ e.obs.val = Table[e.t].d
    [] e.op = "set" -> Set(e.s, e.obs.val)
    [] e.op = "write" -> e.obs.ret = "ok" /\ e.obs.val = val[e.s] /\ Write(e.s, e.n, e.obs.tree)
    [] e.op = "load" -> e.obs.ret = "ok" /\ Load(e.t, e.tree)
    [] e.op = "read" ->
         LET d == docs[e.k] IN
         IF ReadFails(e.s, e.k, e.strict)     \* the observer then puts a new object in the slot
         THEN e.obs.ret = "err" /\ val' = [val EXCEPT ![e.s] = T(e.s).d] /\ e.obs.val = T(e.s).d /\ UNCHANGED <<ty, docs>>
         ELSE e.obs.ret = "ok" /\ Same(T(e.s), ReadDoc(e.s, e.k), e.obs.val) /\ val' = [val EXCEPT ![e.s] = e.obs.val] /\ UNCHANGED <<ty, docs>>
    \* the document with its markup damaged, in a number of ways: none is accepted
    [] e.op = "damage" -> e.obs.accepted = <<>> /\ Keep
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN ty' = <<>> /\ val' = <<>> /\ docs' = <<>> /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev' = Trace[l]
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<ty, val, docs, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
