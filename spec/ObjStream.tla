----------------------------- MODULE ObjStream -----------------------------
(* Objects written to, and read back from, one serialisation buffer.        *)
(* The types, and some objects of each, are given in a table; an object is  *)
(* a tree whose leaves are the bytes of scalars and strings. What the bytes *)
(* of the stream look like is not specified: only that decoding gives back  *)
(* what was encoded, consumes it exactly, and notices damage.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Table == ndJsonDeserialize(IOEnv.TYPES)      \* one type per line: [k, x, z, d, len, e/a/b/m]

VARIABLES ty,    \* type (index into Table) of each slot; a slot is a program variable
          val,   \* object in each slot
          q,     \* what has been written: sequence of [t, v]
          rd,    \* number of items read
          ids,   \* encoded forms seen: pairs <<type, visible part, id>>
          ev
vars == <<ty, val, q, rd, ids, ev>>

(* Decoding v into an object that holds p: excluded members stay as they    *)
(* are; entries of containers and targets of pointers are new objects.      *)
RECURSIVE Merge(_, _, _)
Merge(t, p, v) ==
  IF ~t.x THEN v ELSE
  CASE t.k \in {"excl", "const"} -> p       \* constants are written, but not changed by reading
    [] t.k = "class" -> [i \in 1..Len(v) |-> Merge(t.m[i], p[i], v[i])]
    [] t.k = "arr" -> [i \in 1..Len(v) |-> Merge(t.e, p[i], v[i])]
    [] t.k \in {"seq", "set", "ptr"} -> [i \in 1..Len(v) |-> Merge(t.e, t.e.d, v[i])]
    [] t.k = "map" -> [i \in 1..Len(v) |-> <<Merge(t.a, t.a.d, v[i][1]), Merge(t.b, t.b.d, v[i][2])>>]
    [] t.k = "pair" -> <<Merge(t.a, p[1], v[1]), Merge(t.b, p[2], v[2])>>
    [] OTHER -> v

(* What a reader of the stream can learn about an object.                   *)
RECURSIVE Visible(_, _)
Visible(t, v) ==
  IF ~t.x THEN v ELSE
  CASE t.k = "excl" -> <<>>
    [] t.k = "class" -> [i \in 1..Len(v) |-> Visible(t.m[i], v[i])]
    [] t.k \in {"arr", "seq", "set", "ptr"} -> [i \in 1..Len(v) |-> Visible(t.e, v[i])]
    [] t.k = "map" -> [i \in 1..Len(v) |-> <<Visible(t.a, v[i][1]), Visible(t.b, v[i][2])>>]
    [] t.k = "pair" -> <<Visible(t.a, v[1]), Visible(t.b, v[2])>>
    [] OTHER -> v

T(s) == Table[ty[s]]
Slots == 1..Len(ty)
Init == ty = <<>> /\ val = <<>> /\ q = <<>> /\ rd = 0 /\ ids = {} /\ ev = [op |-> "init"]

NewSlot(i, v) == /\ ty' = Append(ty, i) /\ val' = Append(val, v) /\ UNCHANGED <<q, rd, ids>>
Set(s, v) == /\ val' = [val EXCEPT ![s] = v] /\ UNCHANGED <<ty, q, rd, ids>>
             /\ ev' = [op |-> "set", s |-> s, v |-> v, obs |-> [val |-> v]]

(* Writing leaves the object as it is. Equal bytes for objects that look    *)
(* the same (ids are given out by the observer, one per sequence of bytes). *)
IdOK(s, id) == \A r \in ids : r[1] = ty[s] => (r[3] = id) = (r[2] = Visible(T(s), val[s]))
Put(s, id) == /\ q' = Append(q, [t |-> ty[s], v |-> val[s]])
              /\ ids' = ids \cup {<<ty[s], Visible(T(s), val[s]), id>>}
              /\ UNCHANGED <<ty, val, rd>>
PutObs(s) == [ret |-> "ok", val |-> val[s], same |-> 1, n |-> Len(q) + 1]
PutEv(s) == Put(s, 0) /\ ev' = [op |-> "put", s |-> s, obs |-> PutObs(s)]

Get(s) == /\ rd < Len(q) /\ q[rd + 1].t = ty[s]
          /\ val' = [val EXCEPT ![s] = Merge(T(s), val[s], q[rd + 1].v)]
          /\ rd' = rd + 1 /\ UNCHANGED <<ty, q, ids>>
          /\ ev' = [op |-> "get", s |-> s, obs |-> [ret |-> "ok", val |-> val'[s], at |-> rd']]
(* Nothing left to read: an exception. The observer then puts a new object  *)
(* in the slot.                                                             *)
GetNone(s) == /\ rd = Len(q) /\ ~T(s).z
              /\ val' = [val EXCEPT ![s] = T(s).d]
              /\ UNCHANGED <<ty, q, rd, ids>>
              /\ ev' = [op |-> "get", s |-> s, obs |-> [ret |-> "err", val |-> T(s).d, at |-> rd]]
Rewind == /\ rd' = 0 /\ UNCHANGED <<ty, val, q, ids>> /\ ev' = [op |-> "rewind", obs |-> [at |-> 0]]
Clear == /\ rd' = 0 /\ q' = <<>> /\ UNCHANGED <<ty, val, ids>> /\ ev' = [op |-> "clear", obs |-> [at |-> 0]]
(* Decode the next item from each proper prefix of its bytes: always an     *)
(* exception. Nothing here changes.                                         *)
Cut(s) == /\ rd < Len(q) /\ q[rd + 1].t = ty[s] /\ UNCHANGED <<ty, val, q, rd, ids>>
          /\ ev' = [op |-> "cut", s |-> s, obs |-> [accepted |-> 0]]
(* Damage the bytes of the next item, among others the length it begins     *)
(* with (len): always an exception for a length beyond the data, and never  *)
(* an access outside.                                                       *)
Corrupt(s) == /\ rd < Len(q) /\ q[rd + 1].t = ty[s] /\ UNCHANGED <<ty, val, q, rd, ids>>
              /\ ev' = [op |-> "corrupt", s |-> s, len |-> IF T(s).len THEN 1 ELSE 0, obs |-> [accepted |-> 0]]

(* Deep equality of two objects of one type: what a reader could learn is   *)
(* the same.                                                                *)
Eq(s, u) == /\ ty[s] = ty[u] /\ UNCHANGED <<ty, val, q, rd, ids>>
            /\ ev' = [op |-> "eq", s |-> s, u |-> u, obs |-> [eq |-> IF Visible(T(s), val[s]) = Visible(T(u), val[u]) THEN 1 ELSE 0]]
=============================================================================
