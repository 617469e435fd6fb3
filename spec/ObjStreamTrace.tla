--------------------------- MODULE ObjStreamTrace ---------------------------
EXTENDS ObjStream
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* everything that was written to a file comes back, into new objects
Flush(e) == /\ e.obs.vals = [i \in 1..Len(q) |-> Merge(Table[q[i].t], Table[q[i].t].d, q[i].v)]
            /\ q' = <<>> /\ rd' = 0 /\ UNCHANGED <<ty, val, ids>> /\ ev' = e
Step(e) ==
  CASE e.op = "slot" -> NewSlot(e.t, Table[e.t].d) /\ ev' = [op |-> "slot", obs |-> [val |-> Table[e.t].d]]
    [] e.op = "set" -> Set(e.s, e.obs.val)
    [] e.op = "put" -> /\ (~T(e.s).u => IdOK(e.s, e.obs.id)) /\ Put(e.s, e.obs.id)
                       /\ ev' = [op |-> "put", obs |-> [k \in DOMAIN e.obs |-> IF k = "id" THEN e.obs.id ELSE PutObs(e.s)[k]]]
    [] e.op = "get" -> Get(e.s) \/ GetNone(e.s)
    [] e.op = "rewind" -> Rewind [] e.op = "clear" -> Clear
    [] e.op = "cut" -> Cut(e.s) [] e.op = "corrupt" -> Corrupt(e.s)
    [] e.op = "eq" -> Eq(e.s, e.u)
    [] e.op = "flush" -> Flush(e)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN ty' = <<>> /\ val' = <<>> /\ q' = <<>> /\ rd' = 0 /\ ids' = {} /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<ty, val, q, rd, ids, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
