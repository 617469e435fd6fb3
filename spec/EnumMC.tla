------------------------------- MODULE EnumMC -------------------------------
(* Every enumeration of up to Max enumerators, over the ways of writing them *)
EXTENDS Enum
CONSTANTS Max, Vals, Deep
Neg == {0 - x: x \in {1}}
Hows == {[how |-> "next"]} \cup {[how |-> "lit", v |-> v]: v \in Vals \cup Neg}
        \cup {[how |-> "ref", i |-> i, v |-> k]: i \in 1..Len(decl), k \in {0, 1}}
Nm(i) == <<"a", "b", "c", "d">>[i]
All == (0 - 2)..6
MCNext == \/ decl = <<>> /\ \E s \in {"plain", "scoped"}: Begin(s)
          \/ Len(decl) < Max /\ \E h \in Hows: Enumerator(Nm(Len(decl) + 1), h)
          \/ End
          \/ Deep /\ ~open /\ decl # <<>>
             /\ \/ \E n \in Names \cup {"z", ""}: Val(n) \/ HasName(n) \/ SetName(n)
                \/ \E v \in All: HasValue(v) \/ SetValue(v) \/ SetInt(v) \/ SetNumber(v) \/ \E s \in Symbol(v): Name(v, s)
                \/ \E s \in Text(cur): Read(s)
                \/ \E v \in All, old \in {0, 3}: \E t \in Text(v): Round("xml", old, v, t)
Spec == Init /\ [][MCNext]_vars
State == <<decl, sort, open, cur>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
\* looking a name up and looking its value up again gives a name of the same value
Mutual == \A n \in Names: \A m \in Symbol(ValueOf(n)): ValueOf(m) = ValueOf(n)
\* text identifies the value, whether or not it has a symbol
Unambiguous == \A v, w \in All: v # w => Text(v) \cap Text(w) = {}
\* the values written are read back
RoundTrips == ev.op = "round" => ev.obs.v = ev.v
AfterSet == ev.op = "setn" => (ev.n \in Names => cur = ValueOf(ev.n))
=============================================================================
