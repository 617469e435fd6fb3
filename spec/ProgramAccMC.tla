---------------------------- MODULE ProgramAccMC ----------------------------
(* Access: classes nested in classes, every sequence of labels, members and bases *)
EXTENDS Program
CONSTANTS Depth
VARIABLE prev      \* what came before, so that what it leaves behind is distinguished
Small == Setup.small
BaseLists == {<<>>} \cup {<<[a |-> x, v |-> 0]>>: x \in {"none", "pub", "priv", "prot"}}
             \cup {<<[a |-> "priv", v |-> 0], [a |-> "none", v |-> 0]>>, <<[a |-> "none", v |-> 0], [a |-> "pub", v |-> 0]>>}
Labels == {"pub", "priv", "prot"}
MCInit == Init /\ prev = "o"
MCNext ==
  \/ /\ Len(scopes) <= Depth
     /\ \E kw \in {"class", "struct"}, b \in BaseLists: Open(kw, FALSE, b) /\ prev' = "o"
  \/ \E a \in Labels: Label(a) /\ prev' = "l"
  \/ \E i \in 1..Len(Small): Decl(Small[i]) /\ prev' = IF i % 2 = 0 THEN "d" ELSE "e"
  \/ \E d \in {<<>>, <<[f |-> "s", dims |-> <<>>], [f |-> "a", dims |-> <<2>>]>>}: Close(d) /\ prev' = "c" \o Top.acc
MCSpec == MCInit /\ [][MCNext]_<<vars, prev>>
State == <<scopes, prev>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
\* without the option everything is visited; with it, only what is public
Respected == (ev.op = "decl" /\ Opt.rp /\ ev.acc # "pub") => ev.obs = <<>>
Everything == (ev.op = "decl" /\ ~Opt.rp) => Len(ev.obs) = Cardinality({i \in 1..Len(Kinds[ev.k].d): Kinds[ev.k].d[i].f # "-"})
TypeOK == \A i \in 1..Len(scopes): scopes[i].acc \in Labels /\ scopes[i].need \in {"yes", "no", "any"}
=============================================================================
