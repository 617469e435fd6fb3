----------------------------- MODULE EnumTrace -----------------------------
(* Is what a program saw of its enumerations a behaviour of Enum? *)
EXTENDS Enum
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "begin" -> Begin(e.sort)
    [] e.op = "enumerator" -> Enumerator(e.n, e.h)
    [] e.op = "end" -> End
    [] e.op = "val" -> Val(e.n) /\ e.obs = ev'.obs
    [] e.op = "hasn" -> HasName(e.n) /\ e.obs = ev'.obs
    [] e.op = "hasv" -> HasValue(e.v) /\ e.obs = ev'.obs
    [] e.op = "name" -> Name(e.v, e.obs)
    [] e.op = "table" -> Table(e.obs) /\ e.obs2 = e.obs /\ e.size = Len(e.obs)
    [] e.op = "setv" -> SetValue(e.v) /\ e.obs = cur'
    [] e.op = "seti" -> SetInt(e.v) /\ e.obs = cur'
    [] e.op = "setn" -> SetName(e.n) /\ e.obs = cur'
    [] e.op = "setd" -> SetNumber(e.v) /\ e.obs = cur'
    [] e.op = "read" -> Read(e.obs) /\ e.v = ev'.v
    [] e.op = "round" -> \* binary data carry no text
                         /\ Round(e.how, e.old, e.v, IF e.obs.t = "-" THEN CHOOSE t \in Text(e.v): TRUE ELSE e.obs.t)
                         /\ e.obs.v = ev'.obs.v
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN decl' = <<>> /\ sort' = "plain" /\ open' = FALSE /\ cur' = 0 /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<decl, sort, open, cur, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
