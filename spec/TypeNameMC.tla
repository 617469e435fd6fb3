----------------------------- MODULE TypeNameMC -----------------------------
(* All types of a bounded depth over a few of the simplest: no two have the same name *)
EXTENDS TypeName
CONSTANTS Depth
Fund == {[c |-> "fund", n |-> "int"], [c |-> "fund", n |-> "unsigned char"], Void}
Users == {[c |-> "user", q |-> <<"K0">>], [c |-> "user", q |-> <<"N0", "K0">>], [c |-> "user", q |-> <<"N0", "K1", "In">>]}
Vals == {[c |-> "val", s |-> "3"], [c |-> "val", s |-> "-1"]}
Base == Fund \cup Users
Seqs == {"std::vector", "std::list", "std::set", "classdesc::shared_ptr"}
Wraps(x) == (IF CanConst(x) THEN {Const(x)} ELSE {}) \cup (IF CanPtr(x) THEN {Ptr(x)} ELSE {})
       \cup (IF CanRef(x) THEN {Ref(x), RRef(x)} ELSE {})
       \cup (IF CanArr(x) THEN {Arr(d, x): d \in {<<2>>, <<2, 3>>, <<3, 2>>}} ELSE {})
       \cup (IF Value(x) THEN {Std(n, <<x>>): n \in Seqs} ELSE {})
       \cup {[c |-> "tmpl", q |-> <<"T0">>, args |-> <<x>>]} \cup {[c |-> "tmpl", q |-> <<"N0", "T1">>, args |-> <<x, v>>]: v \in Vals}
Twos(x, y) == IF Value(x) /\ Value(y) THEN {Std(n, <<x, y>>): n \in {"std::map", "std::pair"}} ELSE {}
IntT == [c |-> "fund", n |-> "int"]
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN Base
            ELSE LET P == Types(d - 1) IN P \cup UNION {Wraps(x): x \in P} \cup UNION {Twos(x, IntT) \cup Twos(IntT, x): x \in P}
All == Types(Depth)
Injective == Cardinality({Name(x): x \in All}) = Cardinality(All)
ASSUME Injective
MCNext == t = Void /\ \E x \in All: Is(x)
Spec == Init /\ [][MCNext]_vars
Emit == PrintT(ToJson(ev'))
NonEmpty == Name(t) # ""
=============================================================================
