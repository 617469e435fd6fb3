---------------------------- MODULE ObjStreamMC ----------------------------
(* Exhaustive exploration for a few variables of a few types.               *)
EXTENDS ObjStream
Setup == ndJsonDeserialize(IOEnv.SETUP)[1]    \* [slots |-> types of the variables, pool |-> for each type some objects]
MaxItems == Setup.items
CONSTANTS Damage       \* explore truncated and corrupted data
MCInit == /\ ty = Setup.slots /\ val = [s \in 1..Len(Setup.slots) |-> Table[Setup.slots[s]].d]
          /\ q = <<>> /\ rd = 0 /\ ids = {} /\ ev = [op |-> "init"]
Pool(s) == Setup.pool[ty[s]]
MCNext == \/ \E s \in Slots : \E i \in 1..Len(Pool(s)) : Set(s, Pool(s)[i])
          \/ \E s \in Slots : Len(q) < MaxItems /\ PutEv(s)
          \/ \E s \in Slots : Get(s) \/ GetNone(s)
          \/ \E s \in Slots : Damage /\ val[s] = Pool(s)[1] /\ (Cut(s) \/ Corrupt(s))
          \/ \E s, u \in Slots : s < u /\ ~T(s).u /\ Eq(s, u)
          \/ Rewind \/ Clear
MCSpec == MCInit /\ [][MCNext]_vars

(* what decoding does, stated without Merge *)
RECURSIVE Agree(_, _, _)
Agree(t, a, b) == Visible(t, a) = Visible(t, b)
RoundTrip == [][\A s \in Slots : ev'.op = "get" /\ ev'.s = s /\ ev'.obs.ret = "ok"
                  => Agree(T(s), val'[s], q[rd + 1].v)]_vars
SourceKept == [][ev'.op = "put" => val' = val]_vars
InStep == rd <= Len(q)
MergeFix == \A s \in Slots : Merge(T(s), val[s], val[s]) = val[s] \/ T(s).x
State == [val |-> val, q |-> q, rd |-> rd]
MCView == <<ty, val, q, rd>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
=============================================================================
