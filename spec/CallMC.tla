------------------------------- MODULE CallMC -------------------------------
EXTENDS Call
CONSTANTS MaxBuf, MaxSum
Lists(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<1>>} ELSE {[i \in 1..n |-> i + 1]}
MCNext ==
  \/ \E f \in FN, how \in {"call", "apply"}: \E way \in Ways(f): \E a \in Lists(Len(Fns[f].args)): Call(how, f, way, a)
  \/ \E f \in FN, way \in {"bound", "const"}, o \in 0..(NObj - 1): Bind("bind", f, way, o)
  \/ \E f \in FN, way \in {"raw"}: \E a \in Lists(Len(Fns[f].args)): Len(a) > 0 /\ Len(buf) + Len(a) <= MaxBuf /\ Pack(f, way, a)
  \/ \E f \in FN: \E way \in Ways(f): Run("run", f, way)
  \/ buf # <<>> /\ Clear
Bounded == \A o \in 1..NObj: sums'[o] <= MaxSum
MCSpec == Init /\ [][MCNext]_vars
(* whatever is called is called once, on one object, which alone it changes; nothing else calls or changes anything *)
Once == [][/\ "calls" \in DOMAIN ev'.obs
           /\ ev'.op \in {"call", "apply", "run"} =>
                 /\ Len(ev'.obs.calls) = (IF Refused(ev'.f, ev'.way) THEN 0 ELSE 1)
                 /\ \A c \in {ev'.obs.calls[i] : i \in 1..Len(ev'.obs.calls)}:
                      c.f = ev'.f /\ (Method(c.f) => c.o = On(c.f, ev'.way)) /\ \A o \in 1..NObj: sums'[o] # sums[o] => o = c.o + 1
           /\ ev'.op \notin {"call", "apply", "run"} => ev'.obs.calls = <<>> /\ sums' = sums]_vars
(* running on packed arguments is calling with them *)
AsCalled == [][ev'.op = "run" => LET n == Len(Fns[ev'.f].args) IN
                 /\ buf = SubSeq(buf, 1, n) \o buf' /\ ev'.obs = Invoke(ev'.f, ev'.way, [i \in 1..n |-> buf[i].v]).obs]_vars
Typed == \A i \in 1..Len(buf): buf[i].v = Conv(buf[i].t, buf[i].v)
State == <<sums, bound, cbound, buf>>
MCView == State
Emit == Bounded /\ PrintT(ToJson(<<State, ev', State'>>))
=============================================================================
