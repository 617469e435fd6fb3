------------------------------- MODULE Owned -------------------------------
(* Objects allocated while raw pointers are decoded, and the lists          *)
(* (pack_t::alloced and copies of it) that keep them alive.                 *)
(* A written structure is a sequence of nodes [v, l] as in GraphStream; one *)
(* written through tree pointers is read back with every shared node        *)
(* repeated.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT Kind           \* "tree" or "graph"
VARIABLES obj,          \* objects by number; v = -1 for a number not in use
          buf,          \* buffers: q written, rd read, held list
          lst,          \* lists kept by the program
          ev
vars == <<obj, buf, lst, ev>>
Dead == [v |-> -1, l |-> <<>>]
NoBuf == [q |-> <<>>, rd |-> 0, held |-> <<>>]

RECURSIVE UnfoldFrom(_, _, _, _)
\* inst: the source node of each node of the tree so far, i: the next to look at, r: the tree
UnfoldFrom(g, inst, i, r) ==
  IF i > Len(inst) THEN r
  ELSE LET n == g[inst[i]]
           more(k) == Len(SelectSeq(SubSeq(n.l, 1, k), LAMBDA o : o # 0))
           l == [k \in 1..Len(n.l) |-> IF n.l[k] = 0 THEN 0 ELSE Len(inst) + more(k)]
       IN UnfoldFrom(g, inst \o SelectSeq(n.l, LAMBDA o : o # 0), i + 1, Append(r, [v |-> n.v, l |-> l]))
Unfold(g) == IF g = <<>> THEN <<>> ELSE UnfoldFrom(g, <<1>>, 1, <<>>)
Decoded(g) == IF Kind = "tree" THEN Unfold(g) ELSE g

Sorted(s) == SortSeq(s, <)
Held(bs, ls) == UNION ({ToSet(bs[b].held) : b \in DOMAIN bs} \cup {ToSet(ls[x]) : x \in DOMAIN ls})
RECURSIVE Trim(_)
Trim(o) == IF o = <<>> \/ Last(o).v # -1 THEN o ELSE Trim(Front(o))
\* what remains of the objects
Alive(o, bs, ls) == LET h == Held(bs, ls)
                    IN Trim([i \in 1..Len(o) |-> IF i \in h THEN [o[i] EXCEPT !.l = [k \in 1..Len(@) |-> IF @[k] > 0 /\ @[k] \notin h THEN -1 ELSE @[k]]] ELSE Dead])
Free(o, n) == LET c == 1..(Len(o) + n)  f == {i \in c : i > Len(o) \/ o[i].v = -1} IN SubSeq(SetToSortSeq(f, <), 1, n)
View(o, bs, ls) == [obj |-> o, held |-> [b \in DOMAIN bs |-> bs[b].held], lst |-> ls, errs |-> 0]
Becomes(o, bs, ls, e) == LET b2 == [b \in DOMAIN bs |-> [bs[b] EXCEPT !.held = Sorted(@)]]  l2 == [x \in DOMAIN ls |-> Sorted(ls[x])]  o2 == Alive(o, b2, l2)
                         IN obj' = o2 /\ buf' = b2 /\ lst' = l2 /\ ev' = e @@ [obs |-> View(o2, b2, l2)]

Put(b, g) == Becomes(obj, [buf EXCEPT ![b].q = Append(@, g)], lst, [op |-> "put", b |-> b, g |-> g])
Get(b) == /\ buf[b].rd < Len(buf[b].q)
          /\ LET g == Decoded(buf[b].q[buf[b].rd + 1])  n == Len(g)  id == Free(obj, n)
                 base == [i \in 1..(Len(obj) + n) |-> IF i <= Len(obj) THEN obj[i] ELSE Dead]
                 m(k) == IF k = 0 THEN 0 ELSE id[k]
                 o2 == [i \in DOMAIN base |-> IF i \in ToSet(id) THEN LET k == CHOOSE j \in 1..n : id[j] = i IN [v |-> g[k].v, l |-> [j \in 1..Len(g[k].l) |-> m(g[k].l[j])]] ELSE base[i]]
             IN Becomes(o2, [buf EXCEPT ![b].rd = @ + 1, ![b].held = @ \o id], lst, [op |-> "get", b |-> b])
Rewind(b) == Becomes(obj, [buf EXCEPT ![b].rd = 0], lst, [op |-> "rewind", b |-> b])
\* every proper prefix of the next item is refused, leaving nothing behind
Cut(b) == /\ buf[b].rd < Len(buf[b].q) /\ UNCHANGED <<obj, buf, lst>>
          /\ ev' = [op |-> "cut", b |-> b, obs |-> View(obj, buf, lst) @@ [accepted |-> 0]]
Copy(x, b) == Becomes(obj, buf, [lst EXCEPT ![x] = buf[b].held], [op |-> "copy", x |-> x, b |-> b])
Add(x, b) == Becomes(obj, buf, [lst EXCEPT ![x] = @ \o buf[b].held], [op |-> "add", x |-> x, b |-> b])
Give(b, x) == Becomes(obj, [buf EXCEPT ![b].held = lst[x]], lst, [op |-> "give", b |-> b, x |-> x])
Assign(x, y) == Becomes(obj, buf, [lst EXCEPT ![x] = lst[y]], [op |-> "assign", x |-> x, y |-> y])
Pick(x, b, i) == /\ i \in ToSet(buf[b].held)
                 /\ Becomes(obj, buf, [lst EXCEPT ![x] = Append(@, i)], [op |-> "pick", x |-> x, b |-> b, i |-> i])
DropOne(s, i) == LET k == CHOOSE j \in 1..Len(s) : s[j] = i IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Erase(x, i) == i \in ToSet(lst[x]) /\ Becomes(obj, buf, [lst EXCEPT ![x] = DropOne(@, i)], [op |-> "erase", x |-> x, i |-> i])
EraseB(b, i) == i \in ToSet(buf[b].held) /\ Becomes(obj, [buf EXCEPT ![b].held = DropOne(@, i)], lst, [op |-> "eraseb", b |-> b, i |-> i])
Over(x, i, j) == /\ i \in ToSet(lst[x]) /\ j \in ToSet(lst[x])
                 /\ Becomes(obj, buf, [lst EXCEPT ![x] = Append(DropOne(@, i), j)], [op |-> "over", x |-> x, i |-> i, j |-> j])
Clear(x) == Becomes(obj, buf, [lst EXCEPT ![x] = <<>>], [op |-> "clear", x |-> x])
ClearB(b) == Becomes(obj, [buf EXCEPT ![b].held = <<>>], lst, [op |-> "clearb", b |-> b])
DropList(x) == Becomes(obj, buf, [lst EXCEPT ![x] = <<>>], [op |-> "drop", x |-> x])
Renew(b) == Becomes(obj, [buf EXCEPT ![b] = NoBuf], lst, [op |-> "renew", b |-> b])
MoveNew(b) == Becomes(obj, buf, lst, [op |-> "movenew", b |-> b])
Swap(b, c) == b # c /\ Becomes(obj, [buf EXCEPT ![b] = buf[c], ![c] = buf[b]], lst, [op |-> "swap", b |-> b, c |-> c])
\* b=std::move(c), and c destroyed
Move(b, c) == b # c /\ Becomes(obj, [buf EXCEPT ![b] = buf[c], ![c] = NoBuf], lst, [op |-> "move", b |-> b, c |-> c])
=============================================================================
