------------------------------- MODULE XmlMC -------------------------------
(* Every document whose root has up to MaxKids children out of a set that   *)
(* covers each kind of member: present, repeated, out of order, empty,      *)
(* unknown, nested and shadowed by the same names elsewhere.                *)
EXTENDS Xml
CONSTANTS MaxKids, Emitting
M == Table[1]
L(n, r) == [n |-> n, r |-> r, c |-> <<>>]
N(n, c) == [n |-> n, r |-> [s |-> "-", w |-> 1, e |-> 1], c |-> c]
One == [s |-> "31", i |-> "1"]
Two == [s |-> "2032", i |-> "2"]
Txt == [s |-> "783c"]
Nil == [s |-> "-", w |-> 1, e |-> 1]
Kids == {L("a", One), L("a", Two), L("a", Nil), L("s", Txt), L("s", Nil), L("p", One), L("x", Two), L("u", One),
         N("v", <<>>), N("v", <<L("int", One), L("u", Two), L("int", Two)>>),
         N("b", <<>>), N("b", <<L("s", Txt), L("a", Two)>>), N("b", <<L("a", One), L("a", Two), N("b", <<L("a", One)>>)>>),
         N("r", <<L("int", Two)>>), N("r", <<L("int", One), L("a", One), L("int", Two), L("int", One)>>),
         N("m", <<N("pair", <<L("second", Txt)>>), N("pair", <<L("second", Txt), L("first", One)>>)>>)}
Starts == {M.d, <<"7", "6f6c64", <<"9", "8", "7">>, <<"5">>, <<"6", "71">>, <<"3", "4">>, "11", <<<<"7", "70">>>>>>}
Seqs == UNION {[1..n -> Kids] : n \in 0..MaxKids}
MCInit == ty = <<1>> /\ val = <<>> /\ docs = <<>> /\ ev = [op |-> "init"]
Start(v) == /\ val = <<>> /\ val' = <<v>> /\ UNCHANGED <<ty, docs>>
            /\ ev' = [op |-> "set", s |-> 1, v |-> v, obs |-> [val |-> v]]
ReadIt(k, strict) ==
  /\ Len(val) = 1 /\ docs = <<>>
  /\ LET d == N("root", k)
         bad == strict = 1 /\ Missing(M, d)
         v == IF bad THEN M.d ELSE Read(M, d, val[1])
     IN /\ val' = <<v>>
        /\ docs' = <<1>>
        /\ ev' = [op |-> "readx", s |-> 1, n |-> "root", strict |-> strict, doc |-> k, obs |-> [ret |-> IF bad THEN "err" ELSE "ok", val |-> v]]
  /\ UNCHANGED ty
Next == (\E v \in Starts : Start(v)) \/ (\E k \in Seqs, strict \in {0, 1} : (strict = 1 => Len(k) > MaxKids - 2) /\ ReadIt(k, strict))
Spec == MCInit /\ [][Next]_vars
\* what a document does not mention stays as it is, and what it mentions does not depend on what was there
Independent == \A k \in UNION {[1..n -> Kids] : n \in 0..2} : \A i \in 1..Len(M.m) :
                 LET d == N("root", k) p == [v \in Starts |-> Read(M, d, v)] IN
                 IF (\E j \in 1..Len(k) : k[j].n = M.nm[i]) /\ M.nm[i] # "x"
                 THEN M.m[i].k \in {"scalar", "str", "seq", "ptr", "map"} => (\A v, w \in Starts : p[v][i] = p[w][i] \/ (p[v][i] = v[i] /\ p[w][i] = w[i]))
                 ELSE \A v \in Starts : p[v][i] = v[i] \/ (M.m[i].k = "ptr" /\ p[v][i] = <<>>)
ASSUME Independent
State == [val |-> val, docs |-> docs]
Emit == Emitting => PrintT(ToJson(<<State, ev', [val |-> val', docs |-> docs']>>))
MCView == <<val, docs>>
=============================================================================
