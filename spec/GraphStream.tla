---------------------------- MODULE GraphStream ----------------------------
(* Graphs of linked nodes written to and read back from a buffer.           *)
(* A graph is <<>> (a null link) or a sequence of nodes [v, l], the first   *)
(* being the one the root link refers to, the others numbered breadth       *)
(* first; l is the sequence of links, 0 for a null one. Two graphs are      *)
(* isomorphic exactly when they are equal in this form.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
VARIABLES var,    \* graph held by each program variable
          q, rd,  \* graphs written, number of them read
          ev
vars == <<var, q, rd, ev>>

(* ---- what pack_graph and unpack_graph do, as an algorithm on tokens *)
(* st: t tokens, m nodes in order of their IDs, r links put off. A limit of *)
(* zero means none.                                                         *)
RECURSIVE EncLink(_, _, _, _, _)
RECURSIVE EncLinks(_, _, _, _, _)
EncLink(g, lim, o, level, st) ==
  IF lim > 0 /\ level > 1 /\ level >= lim THEN [st EXCEPT !.r = Append(@, o)]
  ELSE IF o = 0 THEN [st EXCEPT !.t = Append(@, 0)]
  ELSE IF o \in ToSet(st.m) THEN [st EXCEPT !.t = Append(@, CHOOSE i \in 1..Len(st.m) : st.m[i] = o)]
  ELSE EncLinks(g, lim, g[o].l, level + 1, [st EXCEPT !.m = Append(@, o), !.t = @ \o <<Len(st.m) + 1, g[o].v, Len(g[o].l)>>])
EncLinks(g, lim, ls, level, st) == IF ls = <<>> THEN st
                                   ELSE EncLinks(g, lim, Tail(ls), level, EncLink(g, lim, Head(ls), level, st))
RECURSIVE EncRest(_, _, _)
EncRest(g, lim, st) == IF st.r = <<>> THEN st.t
                       ELSE EncRest(g, lim, EncLink(g, lim, Last(st.r), 1, [st EXCEPT !.r = Front(@), !.t = Append(@, lim)]))
Encode(g, lim) == EncRest(g, lim, EncLink(g, lim, IF g = <<>> THEN 0 ELSE 1, 1, [t |-> <<lim>>, m |-> <<>>, r |-> <<>>]))

(* st: h nodes decoded so far, p position, r places put off <<node, link>>, root *)
SetLink(st, w, o) == IF w[1] = 0 THEN [st EXCEPT !.root = o] ELSE [st EXCEPT !.h[w[1]].l[w[2]] = o]
RECURSIVE DecLink(_, _, _, _, _)
RECURSIVE DecLinks(_, _, _, _, _, _, _)
DecLink(t, lim, w, level, st) ==
  IF lim > 0 /\ level > 1 /\ level >= lim THEN [st EXCEPT !.r = Append(@, w)]
  ELSE LET id == t[st.p + 1] IN
       IF id = 0 THEN SetLink([st EXCEPT !.p = @ + 1], w, 0)
       ELSE IF id <= Len(st.h) THEN SetLink([st EXCEPT !.p = @ + 1], w, id)
       ELSE LET n == [v |-> t[st.p + 2], l |-> [i \in 1..t[st.p + 3] |-> 0]]
                s2 == [SetLink([st EXCEPT !.h = Append(@, n)], w, id) EXCEPT !.p = @ + 3]
            IN DecLinks(t, lim, id, 1, Len(n.l), level + 1, s2)
DecLinks(t, lim, id, i, n, level, st) == IF i > n THEN st
                                         ELSE DecLinks(t, lim, id, i + 1, n, level, DecLink(t, lim, <<id, i>>, level, st))
RECURSIVE DecRest(_, _)
DecRest(t, st) == IF st.r = <<>> THEN st
                  ELSE DecRest(t, DecLink(t, t[st.p + 1], Last(st.r), 1, [st EXCEPT !.r = Front(@), !.p = @ + 1]))
Decode(t) == DecRest(t, DecLink(t, t[1], <<0, 1>>, 1, [h |-> <<>>, p |-> 1, r |-> <<>>, root |-> 0]))

(* ---- normal form *)
RECURSIVE Bfs(_, _, _)
Bfs(h, w, s) == IF w = <<>> THEN s
                ELSE LET o == Head(w) IN IF o = 0 \/ o \in ToSet(s) THEN Bfs(h, Tail(w), s) ELSE Bfs(h, Tail(w) \o h[o].l, Append(s, o))
Canon(root, h) == LET s == Bfs(h, <<root>>, <<>>)
                      m(o) == IF o = 0 THEN 0 ELSE CHOOSE i \in 1..Len(s) : s[i] = o
                  IN [i \in 1..Len(s) |-> [v |-> h[s[i]].v, l |-> [k \in 1..Len(h[s[i]].l) |-> m(h[s[i]].l[k])]]]
IsCanon(g) == g = <<>> \/ Canon(1, g) = g

(* ---- the stream *)
Set(x, g) == /\ var' = [var EXCEPT ![x] = g] /\ UNCHANGED <<q, rd>>
             /\ ev' = [op |-> "set", x |-> x, g |-> g, obs |-> [g |-> g]]
(* two variables referring to one graph: reading into one of them later does *)
(* not change what the other refers to                                       *)
Copy(x, y) == /\ var' = [var EXCEPT ![x] = var[y]] /\ UNCHANGED <<q, rd>>
              /\ ev' = [op |-> "copy", x |-> x, y |-> y, obs |-> [g |-> var[y]]]
Put(x, lim) == /\ q' = Append(q, var[x]) /\ UNCHANGED <<var, rd>>
               /\ ev' = [op |-> "put", x |-> x, lim |-> lim, obs |-> [g |-> var[x], ret |-> "ok"]]
Get(x) == /\ rd < Len(q) /\ var' = [var EXCEPT ![x] = q[rd + 1]] /\ rd' = rd + 1 /\ UNCHANGED q
          /\ ev' = [op |-> "get", x |-> x, obs |-> [g |-> q[rd + 1], all |-> var', at |-> rd + 1, ret |-> "ok"]]
(* nothing there: an exception; the observer then makes the variable null *)
GetNone(x) == /\ rd = Len(q) /\ var' = [var EXCEPT ![x] = <<>>] /\ UNCHANGED <<q, rd>>
              /\ ev' = [op |-> "get", x |-> x, obs |-> [g |-> <<>>, all |-> var', at |-> rd, ret |-> "err"]]
(* decode the next item from each proper prefix of it: always an exception, *)
(* of which nothing is left behind                                          *)
Cut(x) == /\ rd < Len(q) /\ UNCHANGED <<var, q, rd>> /\ ev' = [op |-> "cut", x |-> x, obs |-> [accepted |-> 0]]
(* writing to a device that fails, at each of its calls: likewise *)
PutFail(x, lim) == /\ UNCHANGED <<var, q, rd>> /\ ev' = [op |-> "putfail", x |-> x, lim |-> lim, obs |-> [accepted |-> 0, g |-> var[x]]]
Rewind == /\ rd' = 0 /\ UNCHANGED <<var, q>> /\ ev' = [op |-> "rewind", obs |-> [at |-> 0]]
=============================================================================
