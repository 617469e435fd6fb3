--------------------------- MODULE GraphStreamMC ---------------------------
(* Every graph of at most MaxN nodes with NL links each, every limit; each  *)
(* is written, and read into variables holding something else.              *)
EXTENDS GraphStream
CONSTANTS MaxN, NL, Limits, Emitting
Nodes(n) == [v : {0}, l : [1..NL -> 0..n]]
Label(g) == [i \in 1..Len(g) |-> [v |-> i + 4, l |-> g[i].l]]
Canonical == UNION {{Label(g) : g \in {f \in [1..n -> Nodes(n)] : IsCanon(f)}} : n \in 0..MaxN}
Other == <<[v |-> 91, l |-> [k \in 1..NL |-> IF k = 1 THEN 2 ELSE 0]], [v |-> 92, l |-> [k \in 1..NL |-> 1]]>>
VARIABLE step, lim
Init == /\ var \in [1..2 -> {<<>>}] /\ q = <<>> /\ rd = 0 /\ ev = [op |-> "init"] /\ step = 0 /\ lim = 0
Next == \/ /\ step = 0 /\ step' = 1 /\ UNCHANGED lim /\ \E g \in Canonical : Set(1, g)
        \/ /\ step = 1 /\ step' = 2 /\ \E m \in Limits : lim' = m /\ Put(1, m)
        \/ /\ step = 2 /\ step' = 3 /\ UNCHANGED lim /\ (Put(1, (lim * 7) % 5) \/ Set(2, Other) \/ (lim \in {3, 500} /\ Copy(2, 1)))
        \/ /\ step = 3 /\ step' = 4 /\ UNCHANGED lim /\ Get(2)
        \/ /\ step = 4 /\ rd < Len(q) /\ step' = 5 /\ UNCHANGED lim /\ Get(1)
Spec == Init /\ [][Next]_<<vars, step, lim>>
(* The algorithm reproduces the graph and uses up its tokens, for every limit. *)
AlgorithmCorrect == step = 2 => LET g == var[1]  t == Encode(g, lim)  d == Decode(t)
                                IN Canon(d.root, d.h) = g /\ d.p = Len(t)
(* the recursion really is bounded *)
Emit == Emitting => PrintT(ToJson(<<[var |-> var, q |-> q, rd |-> rd, step |-> step, lim |-> lim], ev', [var |-> var', q |-> q', rd |-> rd', step |-> step', lim |-> lim']>>))
MCView == <<var, q, rd, step, lim>>
=============================================================================
