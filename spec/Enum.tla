-------------------------------- MODULE Enum --------------------------------
(* An enumeration as it is declared, what is known about it at run time, and a variable of it
   read and written through handles, streams, binary data and XML. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES decl,   \* the enumerators so far: <<[n |-> name, v |-> value]>>
          sort,   \* "plain" enums and "scoped" ones
          open,   \* the declaration has not been finished
          cur,    \* the variable
          ev
vars == <<decl, sort, open, cur, ev>>

Names == {decl[i].n: i \in 1..Len(decl)}
Values == {decl[i].v: i \in 1..Len(decl)}
ValueOf(n) == decl[CHOOSE i \in 1..Len(decl): decl[i].n = n].v
NamesOf(v) == {decl[i].n: i \in {j \in 1..Len(decl): decl[j].v = v}}
(* a value may have several names: any of them will do, always the same one *)
Text(v) == IF v \in Values THEN NamesOf(v) ELSE {ToString(v)}
Symbol(v) == IF v \in Values THEN NamesOf(v) ELSE {""}

(* the value of the next enumerator, by how it is written *)
Written(h) == CASE h.how = "next" -> IF decl = <<>> THEN 0 ELSE decl[Len(decl)].v + 1
                [] h.how = "lit" -> h.v
                [] h.how = "ref" -> decl[h.i].v + h.v

Init == decl = <<>> /\ sort = "plain" /\ open = FALSE /\ cur = 0 /\ ev = [op |-> "init"]
Begin(s) == /\ ~open /\ decl' = <<>> /\ sort' = s /\ open' = TRUE /\ cur' = 0 /\ ev' = [op |-> "begin", sort |-> s]
Enumerator(n, h) == /\ open /\ n \notin Names
                    /\ decl' = Append(decl, [n |-> n, v |-> Written(h)])
                    /\ ev' = [op |-> "enumerator", n |-> n, h |-> h]
                    /\ UNCHANGED <<sort, open, cur>>
End == /\ open /\ decl # <<>> /\ open' = FALSE /\ ev' = [op |-> "end"] /\ UNCHANGED <<decl, sort, cur>>

Same == UNCHANGED <<decl, sort, open, cur>>
Set(v) == ~open /\ cur' = v /\ UNCHANGED <<decl, sort, open>>
(* the table *)
Val(n) == ~open /\ Same /\ ev' = [op |-> "val", n |-> n, obs |-> IF n \in Names THEN ValueOf(n) ELSE 0]
HasName(n) == ~open /\ Same /\ ev' = [op |-> "hasn", n |-> n, obs |-> n \in Names]
HasValue(v) == ~open /\ Same /\ ev' = [op |-> "hasv", v |-> v, obs |-> v \in Values]
Name(v, s) == ~open /\ s \in Symbol(v) /\ Same /\ ev' = [op |-> "name", v |-> v, obs |-> s]
(* iteration gives every value once, in some order, with a name it has; t: <<[v |-> , n |-> ]>> *)
Goes(t) == /\ Len(t) = Cardinality(Values)
           /\ {t[i].v: i \in 1..Len(t)} = Values
           /\ \A i \in 1..Len(t): t[i].n \in NamesOf(t[i].v)
Table(t) == ~open /\ Goes(t) /\ Same /\ ev' = [op |-> "table", obs |-> t]
(* the variable; an unknown symbol stands for 0, a number for itself *)
SetValue(v) == Set(v) /\ ev' = [op |-> "setv", v |-> v]
SetInt(v) == Set(v) /\ ev' = [op |-> "seti", v |-> v]
SetName(n) == Set(IF n \in Names THEN ValueOf(n) ELSE 0) /\ ev' = [op |-> "setn", n |-> n]
SetNumber(v) == Set(v) /\ ev' = [op |-> "setd", v |-> v]
Read(s) == ~open /\ s \in Text(cur) /\ Same /\ ev' = [op |-> "read", v |-> cur, obs |-> s]
(* written and read back into an enum that held the value old: by way of text or bytes *)
Round(how, old, v, t) == /\ ~open /\ Same /\ t \in Text(v)
                         /\ ev' = [op |-> "round", how |-> how, old |-> old, v |-> v, obs |-> [v |-> v, t |-> t]]
-----------------------------------------------------------------------------
Consistent == \A n \in Names: n \in NamesOf(ValueOf(n))
=============================================================================
