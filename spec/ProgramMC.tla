----------------------------- MODULE ProgramMC -----------------------------
(* One class: every way of writing a declaration, after every other, under every access label *)
EXTENDS Program
MCInit == /\ scopes = <<File>> /\ last = 0 /\ ev = [op |-> "init"]
MCNext ==
  \/ /\ Len(scopes) = 1 /\ \E kw \in {"class", "struct"}: Open(kw, FALSE, <<>>)
  \/ /\ Len(scopes) = 2
     /\ \/ \E k \in 1..Len(Kinds): Decl(k)
        \/ last # 0 /\ \E a \in {"pub", "priv"}: a # Top.acc /\ Label(a)
Spec == MCInit /\ [][MCNext]_vars
\* (what a class needs is not told apart here)
State == <<[i \in 1..Len(scopes) |-> [scopes[i] EXCEPT !.need = "any"]], last>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
TypeOK == /\ \A i \in 1..Len(scopes): scopes[i].acc \in {"pub", "priv", "prot"}
          /\ ev.op = "decl" => \A j \in 1..Len(ev.obs): ev.obs[j].i \in 1..Len(Kinds[ev.k].d)
\* each declarator is visited at most once, in order
InOrder == ev.op = "decl" => \A i, j \in 1..Len(ev.obs): i < j => ev.obs[i].i < ev.obs[j].i
=============================================================================
