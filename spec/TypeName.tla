------------------------------ MODULE TypeName ------------------------------
(* The name reflection gives a type: a type is a term over what it is built from.
     [c |-> "fund", n]             a fundamental type or string
     [c |-> "user", q]             a class or enum, q its qualified name as a sequence of identifiers
     [c |-> "tmpl", q, args]       a template's instance; an argument is a type or [c |-> "val", s]
     [c |-> "const" "ptr" "ref" "rref", t]
     [c |-> "arr", dims, t]
     [c |-> "std", n, args]        a standard container, pair or smart pointer
   The blanks of a name that separate nothing are left out of it here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, ev
vars == <<t, ev>>

RECURSIVE Path(_), Dims(_)
Path(q) == IF q = <<>> THEN "" ELSE "::" \o Head(q) \o Path(Tail(q))
Dims(d) == IF d = <<>> THEN "" ELSE "[" \o ToString(Head(d)) \o "]" \o Dims(Tail(d))
RECURSIVE Name(_), Join(_, _)
Join(args, sep) == IF Len(args) = 1 THEN Name(args[1]) ELSE Name(args[1]) \o sep \o Join(Tail(args), sep)
Name(x) ==
  CASE x.c = "fund" -> x.n
    [] x.c = "val" -> x.s
    [] x.c = "user" -> IF "bare" \in DOMAIN x THEN x.q[1] ELSE Path(x.q)   \* (a struct typedef'd in the global namespace)
    [] x.c = "tmpl" -> Path(x.q) \o "<" \o Join(x.args, ",") \o ">"
    [] x.c = "std" -> x.n \o "<" \o Join(x.args, ",") \o ">"
    [] x.c = "const" -> IF x.t.c = "ptr" THEN Name(x.t) \o " const" ELSE "const " \o Name(x.t)
    [] x.c = "ptr" -> Name(x.t) \o "*"
    [] x.c = "ref" -> Name(x.t) \o "&"
    [] x.c = "rref" -> Name(x.t) \o "&&"
    [] x.c = "arr" -> Name(x.t) \o Dims(x.dims)

Void == [c |-> "fund", n |-> "void"]
Object(x) == x.c \notin {"ref", "rref"} /\ x # Void
Value(x) == Object(x) /\ x.c \notin {"const", "arr"}
(* what may be built from a type *)
Const(x) == [c |-> "const", t |-> x]       CanConst(x) == x.c \notin {"const", "ref", "rref", "arr"}
Ptr(x) == [c |-> "ptr", t |-> x]           CanPtr(x) == x.c \notin {"ref", "rref"}
Ref(x) == [c |-> "ref", t |-> x]           CanRef(x) == x.c \notin {"ref", "rref"} /\ x # Void /\ x # Const(Void)
RRef(x) == [c |-> "rref", t |-> x]
Arr(d, x) == [c |-> "arr", dims |-> d, t |-> x]   CanArr(x) == Object(x) /\ x # Const(Void) /\ x.c # "arr"
Std(n, as) == [c |-> "std", n |-> n, args |-> as]
-----------------------------------------------------------------------------
Init == t = Void /\ ev = [op |-> "init"]
Is(x) == t' = x /\ ev' = [op |-> "type", t |-> x, obs |-> Name(x)]
=============================================================================
