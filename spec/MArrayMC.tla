----------------------------- MODULE MArrayMC -----------------------------
EXTENDS MArray
CONSTANTS MaxRank, MaxDim
Shapes == UNION {[1..r -> 0..MaxDim] : r \in 1..MaxRank}
Whole == Prod(dims, R)
MCNext == \/ \E d \in Shapes: dims = <<1>> /\ it = 0 - 1 /\ mem = Fresh(1) /\ New("args", d)
          \/ \E c \in Coords(dims, R): Len(dims) > 0 /\ mem = Fresh(Whole) /\ Set(c, 99)
          \/ \E w \in {"begin", "end"}: mem = Fresh(Whole) /\ Place(w)
          \/ \E n \in {0 - 1, 1, 2}: mem = Fresh(Whole) /\ Move(IF n = 1 THEN "preinc" ELSE IF n = 2 THEN "add" ELSE "predec", n)
          \/ it >= 0 /\ \E c \in Coords(SubSeq(dims, 1, R - 1), R - 1): mem = Fresh(Whole) /\ Poke(c, 99)
MCSpec == Init /\ [][MCNext]_vars
(* the coordinates and the elements correspond one to one *)
OneToOne == /\ {Addr(dims, c) : c \in Coords(dims, R)} = 0..(Whole - 1)
            /\ Cardinality(Coords(dims, R)) = Whole
(* iteration meets every element once, in the order of memory *)
Each == Walk(dims, mem, <<>>, 0) = SubSeq(mem, Pad + 1, Pad + Whole)
(* a sub-array's elements lie in its parent, those of different ones apart *)
Apart == R > 1 => \A i, j \in 0..(dims[R] - 1): i # j => {Addr(dims, <<i>> \o c) : c \in Coords(SubSeq(dims, 1, R - 1), R - 1)} \cap {Addr(dims, <<j>> \o c) : c \in Coords(SubSeq(dims, 1, R - 1), R - 1)} = {}
(* writing changes one element and nothing outside the array *)
OneCell == [][ev'.op \in {"set", "poke"} => Cardinality({i \in 1..Len(mem) : mem'[i] # mem[i]}) = 1]_vars
Guard == \A i \in 1..Pad: mem[i] = 0 - i /\ mem[Len(mem) + 1 - i] = 0 - (Len(mem) + 1 - i)
State == <<dims, mem, it>>
MCView == State
=============================================================================
