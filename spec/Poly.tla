-------------------------------- MODULE Poly --------------------------------
(* Objects behind polymorphic pointers: as ObjStream, where such a pointer  *)
(* is <<>> (null) or <<class, members>>. Pointers own what they point to,   *)
(* so a structure of pointers is a value like any other.                    *)
EXTENDS ObjStream
Hier == ndJsonDeserialize(IOEnv.HIER)[1]     \* [isa |-> class -> classes it derives from]
IsPtr(s) == T(s).k = "poly"
Same == UNCHANGED <<ty, q, rd, ids>>
(* a copy, of the same class, of its own *)
Clone(s, u) == /\ IsPtr(s) /\ IsPtr(u) /\ ty[s] = ty[u] /\ val[s] # <<>>
               /\ val' = [val EXCEPT ![u] = val[s]] /\ Same
               /\ ev' = [op |-> "clone", s |-> s, u |-> u, obs |-> [vals |-> val']]
(* a copy as a pointer to class k: null if it is not one *)
Cast(s, u, k) == /\ IsPtr(s) /\ IsPtr(u) /\ ty[s] = ty[u] /\ val[s] # <<>>
                 /\ val' = [val EXCEPT ![u] = IF \E i \in 1..Len(Hier.isa[val[s][1]]): Hier.isa[val[s][1]][i] = k THEN val[s] ELSE <<>>] /\ Same
                 /\ ev' = [op |-> "cast", s |-> s, u |-> u, k |-> k, obs |-> [vals |-> val']]
(* the object a pointer points to changes; no other does *)
Poke(s, v) == /\ IsPtr(s) /\ val[s] # <<>> /\ v # <<>> /\ v[1] = val[s][1]
              /\ val' = [val EXCEPT ![s] = v] /\ Same
              /\ ev' = [op |-> "poke", s |-> s, v |-> v, obs |-> [vals |-> val']]
(* no object is alive but those the variables hold *)
Spare == /\ UNCHANGED val /\ Same /\ ev' = [op |-> "spare", obs |-> [spare |-> 0]]
=============================================================================
