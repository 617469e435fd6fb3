------------------------------- MODULE PolyMC -------------------------------
(* Exhaustive exploration for a few variables. *)
EXTENDS ObjStreamMC
P == INSTANCE Poly
Classes == DOMAIN P!Hier.isa
PolyNext == \/ \E s \in Slots : \E i \in 1..Len(Pool(s)) : Set(s, Pool(s)[i])
            \/ \E s \in Slots : Len(q) < MaxItems /\ PutEv(s)
            \/ \E s \in Slots : Get(s) \/ GetNone(s)
            \/ \E s, u \in Slots : s # u /\ P!Clone(s, u)
            \/ \E s, u \in Slots : s # u /\ \E k \in Classes : P!Cast(s, u, k)
            \/ \E s \in Slots : \E i \in 1..Len(Pool(s)) : P!Poke(s, Pool(s)[i])
            \/ P!Spare
PolySpec == MCInit /\ [][PolyNext]_vars
(* a clone has the class and members of its origin, which is left alone *)
Cloned == [][ev'.op = "clone" => val'[ev'.u] = val[ev'.s] /\ val'[ev'.s] = val[ev'.s]]_vars
=============================================================================
