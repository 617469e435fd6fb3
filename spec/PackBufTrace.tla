---------------------------- MODULE PackBufTrace ----------------------------
(* Trace validation: is the recorded sequence of calls and observations a   *)
(* behaviour of PackBuf?                                                    *)
EXTENDS PackBuf, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>

Step(e) ==
  CASE e.op = "write"    -> Write(e.b, e.k, e.v)
    [] e.op = "writeraw" -> WriteRaw(e.b, e.v)
    [] e.op = "writearr" -> WriteArr(e.b, e.k, e.n, e.v)
    [] e.op = "read"     -> Read(e.b, e.k)
    [] e.op = "readraw"  -> ReadRaw(e.b, e.n)
    [] e.op = "readarr"  -> ReadArr(e.b, e.k, e.n)
    [] e.op = "readhuge" -> ReadHuge(e.b, e.h)
    [] e.op = "look"     -> Look(e.b)
    [] e.op = "reseti"   -> ResetI(e.b)
    [] e.op = "reseto"   -> ResetO(e.b)
    [] e.op = "seeki"    -> SeekI(e.b, e.n)
    [] e.op = "seeko"    -> SeekO(e.b, e.n)
    [] e.op = "clear"    -> Clear(e.b)
    [] e.op = "grow"     -> Grow(e.b, e.v)
    [] e.op = "shrink"   -> Shrink(e.b, e.n)
    [] e.op = "renew"    -> Renew(e.b, e.v)
    [] e.op = "flags"    -> SetFlags(e.b, e.f, e.r)
    [] e.op = "swap"     -> Swap(e.b, e.c)
    [] e.op = "moveto"   -> MoveTo(e.b, e.c)
    [] e.op = "movenew"  -> MoveNew(e.b, e.c)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ IF Trace[l].op = "restart"
                  THEN /\ buf' = [b \in Bufs |-> Fresh] /\ ev' = [op |-> "init"]
                       /\ UNCHANGED <<inH, outH>>
                  ELSE /\ Step(Trace[l])
                       /\ ev'.obs = Trace[l].obs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* the ghosts are not needed here and would make states long
TraceView == <<buf, l>>
TraceAccepted == LET n == TLCGet("stats").diameter - 1
                 IN /\ PrintT("MATCHED " \o ToString(n))
                    /\ n = Len(Trace)
=============================================================================
