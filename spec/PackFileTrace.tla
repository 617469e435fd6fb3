--------------------------- MODULE PackFileTrace ---------------------------
EXTENDS PackFile, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "openw" -> OpenW [] e.op = "openr" -> OpenR [] e.op = "close" -> Close
    [] e.op = "openbad" -> OpenBad(e.m)
    [] e.op = "write" -> Write(e.k, e.v) [] e.op = "writeraw" -> WriteRaw(e.v) [] e.op = "writearr" -> WriteArr(e.k, e.n, e.v)
    [] e.op = "read" -> Read(e.k) [] e.op = "readraw" -> ReadRaw(e.n) [] e.op = "readarr" -> ReadArr(e.k, e.n)
    [] e.op = "reseti" -> ResetI [] e.op = "reseto" -> ResetO [] e.op = "seeki" -> SeekI(e.n) [] e.op = "seeko" -> SeekO(e.n)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Trace[l].op = "restart" THEN phase' = "new" /\ file' = <<>> /\ at' = 0 /\ ev' = [op |-> "init"]
                ELSE Step(Trace[l]) /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<phase, file, at, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================
