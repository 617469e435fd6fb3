----------------------------- MODULE OwnedTrace -----------------------------
EXTENDS Owned, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
B == 1..3
X == 1..3
Step(e) ==
  CASE e.op = "put" -> Put(e.b, e.g) [] e.op = "get" -> Get(e.b) [] e.op = "rewind" -> Rewind(e.b) [] e.op = "cut" -> Cut(e.b)
    [] e.op = "copy" -> Copy(e.x, e.b) [] e.op = "add" -> Add(e.x, e.b) [] e.op = "give" -> Give(e.b, e.x) [] e.op = "assign" -> Assign(e.x, e.y)
    [] e.op = "pick" -> Pick(e.x, e.b, e.i) [] e.op = "erase" -> Erase(e.x, e.i) [] e.op = "eraseb" -> EraseB(e.b, e.i) [] e.op = "over" -> Over(e.x, e.i, e.j)
    [] e.op = "clear" -> Clear(e.x) [] e.op = "clearb" -> ClearB(e.b) [] e.op = "drop" -> DropList(e.x) [] e.op = "renew" -> Renew(e.b)
    [] e.op = "movenew" -> MoveNew(e.b) [] e.op = "swap" -> Swap(e.b, e.c) [] e.op = "move" -> Move(e.b, e.c)
Empty(o, bs, ls) == o = <<>> /\ bs = [b \in B |-> NoBuf] /\ ls = [x \in X |-> <<>>]
TraceInit == Empty(obj, buf, lst) /\ ev = [op |-> "init"] /\ n = 1
TraceNext == /\ n <= Len(Trace) /\ n' = n + 1
             /\ IF Trace[n].op = "restart" THEN Empty(obj', buf', lst') /\ ev' = [op |-> "init"] ELSE Step(Trace[n]) /\ ev'.obs = Trace[n].obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, n>>
TraceView == <<obj, buf, lst, n>>
TraceAccepted == LET m == TLCGet("stats").diameter - 1 IN PrintT("MATCHED " \o ToString(m)) /\ m = Len(Trace)
=============================================================================
