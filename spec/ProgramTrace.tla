---------------------------- MODULE ProgramTrace ----------------------------
(* Is what the generated descriptors visited a behaviour of Program? *)
EXTENDS Program
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "ns" -> NsOpen
    [] e.op = "nsend" -> NsClose
    [] e.op = "other" -> Other(e.k)
    [] e.op = "open" -> Open(e.kw, e.tmpl, e.bases) /\ (ev'.described => e.obs = ev'.obs)
    [] e.op = "label" -> Label(e.a)
    [] e.op = "decl" -> Decl(e.k) /\ (Top.seen => e.obs = ev'.obs)
    [] e.op = "close" -> /\ Close(e.d)
                         /\ (ev'.described => e.obs.ordered /\ e.obs.extra = 0)
                         \* insert-friend: what access was given to
                         /\ ("friend" \in DOMAIN e.obs /\ ev'.described /\ ev'.need = "yes" => e.obs.friend)
                         /\ ("friend" \in DOMAIN e.obs /\ ev'.need = "no" => ~e.obs.friend)
                         /\ (Pop[Len(Pop)].s = "class" /\ Pop[Len(Pop)].seen => e.obs.members = ev'.obs.members)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN scopes' = <<File>> /\ last' = 0 /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<scopes, last, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
