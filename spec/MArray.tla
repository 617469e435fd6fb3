------------------------------ MODULE MArray ------------------------------
(* A multidimensional array is a view of user-owned memory, in which the   *)
(* first dimension varies fastest; the first index is of the last one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Pad                     \* cells either side of the array's memory
VARIABLES dims, mem, it,         \* it: position of the iterator over the outermost index, or -1
          ev
vars == <<dims, mem, it, ev>>
R == Len(dims)
RECURSIVE Prod(_, _)
Prod(d, k) == IF k = 0 THEN 1 ELSE d[k] * Prod(d, k - 1)
RECURSIVE Addr(_, _)             \* offset of a (partial) tuple of indices, outermost first
Addr(d, c) == IF c = <<>> THEN 0 ELSE c[1] * Prod(d, Len(d) - 1) + Addr(SubSeq(d, 1, Len(d) - 1), Tail(c))
Coords(d, k) == {c \in [1..k -> 0..4] : \A j \in 1..k: c[j] < d[Len(d) + 1 - j]}
Fresh(n) == [i \in 1..(n + 2 * Pad) |-> IF i <= Pad \/ i > n + Pad THEN 0 - i ELSE i - Pad]
(* elements met by nested iteration over the sub-array at c *)
RECURSIVE Count(_, _, _)
Count(d, c, j) == IF j >= Prod(d, Len(d) - Len(c)) THEN <<>> ELSE <<Addr(d, c) + j>> \o Count(d, c, j + 1)
RECURSIVE Walk(_, _, _, _)       \* from index i of the sub-array at c on
Walk(d, m, c, i) == IF Len(c) = Len(d) THEN <<m[Pad + 1 + Addr(d, c)]>>
                    ELSE IF i >= d[Len(d) - Len(c)] THEN <<>>
                    ELSE Walk(d, m, Append(c, i), 0) \o Walk(d, m, c, i + 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* backwards over the outermost index only *)
RECURSIVE Back(_, _, _)
Back(d, m, i) == IF i = 0 THEN <<>> ELSE Walk(d, m, <<i - 1>>, 0) \o Back(d, m, i - 1)
Init == dims = <<1>> /\ mem = Fresh(1) /\ it = 0 - 1 /\ ev = [op |-> "init"]
New(ctor, d) == /\ dims' = d /\ mem' = Fresh(Prod(d, Len(d))) /\ it' = 0 - 1
                /\ ev' = [op |-> "new", ctor |-> ctor, d |-> d, obs |-> [size |-> d[Len(d)], stride |-> Prod(d, Len(d) - 1), rank |-> Len(d)]]
Set(c, v) == /\ Len(c) = R /\ \A j \in 1..R: c[j] < dims[R + 1 - j]
             /\ mem' = [mem EXCEPT ![Pad + 1 + Addr(dims, c)] = v] /\ UNCHANGED <<dims, it>>
             /\ ev' = [op |-> "set", c |-> c, v |-> v, obs |-> [mem |-> mem']]
Get(c, k) == /\ UNCHANGED <<dims, mem, it>>
             /\ ev' = [op |-> "get", c |-> c, k |-> k, obs |-> [v |-> mem[Pad + 1 + Addr(dims, c)]]]
Sub(c, k) == /\ Len(c) < R /\ UNCHANGED <<dims, mem, it>>
             /\ ev' = [op |-> "sub", c |-> c, k |-> k,
                       obs |-> [rank |-> R - Len(c), size |-> dims[R - Len(c)], stride |-> Prod(dims, R - Len(c) - 1), walk |-> Walk(dims, mem, c, 0)]]
Iterate(how) == /\ UNCHANGED <<dims, mem, it>>
                /\ ev' = [op |-> "iterate", how |-> how, obs |-> [walk |-> IF how = "back" THEN Back(dims, mem, dims[R]) ELSE Walk(dims, mem, <<>>, 0)]]
(* an iterator of its own, kept from call to call; only of arrays with elements *)
At(i) == [begin |-> i = 0, end |-> i = dims[R], val |-> IF i < dims[R] THEN Walk(dims, mem, <<i>>, 0) ELSE <<>>]
Place(where) == /\ Prod(dims, R) > 0 /\ it' = (IF where = "end" THEN dims[R] ELSE 0) /\ UNCHANGED <<dims, mem>>
                /\ ev' = [op |-> "place", where |-> where, obs |-> At(it')]
Move(how, n) == /\ it >= 0 /\ it + n \in 0..dims[R] /\ it' = it + n /\ UNCHANGED <<dims, mem>>
                /\ how \in {"preinc", "postinc"} => n = 1
                /\ how \in {"predec", "postdec"} => n = 0 - 1
                /\ how = "add" => n >= 0
                /\ ev' = [op |-> "move", how |-> how, n |-> n, obs |-> At(it + n) @@ [was |-> IF how \in {"postinc", "postdec"} THEN At(it).val ELSE At(it + n).val]]
(* writing through what the iterator designates *)
Poke(c, v) == /\ it >= 0 /\ it < dims[R] /\ Len(c) = R - 1
              /\ mem' = [mem EXCEPT ![Pad + 1 + Addr(dims, <<it>> \o c)] = v] /\ UNCHANGED <<dims, it>>
              /\ ev' = [op |-> "poke", c |-> c, v |-> v, obs |-> [mem |-> mem']]
=============================================================================
