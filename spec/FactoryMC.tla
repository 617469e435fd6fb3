----------------------------- MODULE FactoryMC -----------------------------
EXTENDS Factory
CONSTANTS MaxMade
MCNext == \/ \E f \in F: \E n \in N, k \in K: Register(f, n, k)
          \/ \E f \in F, k \in K: RegisterOwn(f, k)
          \/ \E f \in F, n \in N: Len(made) < MaxMade /\ Create(f, n)
          \/ \E i \in 1..MaxMade: Change(i, 1)
          \/ Destroy
          \/ \E f, g \in F: f # g /\ Copy(f, g)
          \/ \E f \in F: Renew(f)
MCSpec == Init /\ [][MCNext]_vars
(* a name once bound stays bound to its class *)
Bound == [][ev'.op \in {"register", "own", "create"} => \A f \in F, n \in N: reg[f][n] # 0 => reg'[f][n] = reg[f][n]]_vars
Made == [][ev'.op = "create" /\ ev'.obs.ret = "ok" => Len(made') = Len(made) + 1 /\ made'[Len(made')] = [k |-> reg[ev'.f][ev'.n], v |-> 0]]_vars
State == <<reg, made>>
MCView == State
Emit == PrintT(ToJson(<<State, ev', State'>>))
=============================================================================
