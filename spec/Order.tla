-------------------------------- MODULE Order --------------------------------
(* Comparison of contents as a total order that is discovered comparison by  *)
(* comparison.  The order itself is left open: any consistent one will do.   *)
(* chain: the distinct contents met so far, in ascending order.              *)
(* at:    for every item met so far, the place of its content in the chain.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
VARIABLES chain, at, ev
vars == <<chain, at, ev>>
Init == chain = <<>> /\ at = <<>> /\ ev = [op |-> "init"]

\* what must be observed when x is compared with y: sign of x?y, sign of y?x, x<y, x>y, x==y, x!=y
Row(q, p, same) == IF same THEN <<0, 0, 0, 0, 1, 0>>
                   ELSE IF q <= p THEN <<1, -1, 0, 1, 0, 1>>   \* y is below x
                                  ELSE <<-1, 1, 1, 0, 0, 1>>

\* a content met before: same place, equal to itself and ordered as before
Again(x, row, p) == /\ p \in 1..Len(chain) /\ chain[p] = x
                    /\ \A j \in 1..Len(at) : row[j] = Row(at[j], p, at[j] = p)
                    /\ at' = Append(at, p) /\ UNCHANGED chain
\* a new content directly above place p
New(x, row, p) == /\ p \in 0..Len(chain) /\ \A i \in 1..Len(chain) : chain[i] # x
                  /\ \A j \in 1..Len(at) : row[j] = Row(at[j], p, FALSE)
                  /\ chain' = InsertAt(chain, p + 1, x)
                  /\ at' = Append([j \in 1..Len(at) |-> IF at[j] > p THEN at[j] + 1 ELSE at[j]], p + 1)
Meet(x, row) == /\ \E p \in 0..Len(chain) : Again(x, row, p) \/ New(x, row, p)
                /\ ev' = [op |-> "meet", x |-> x, row |-> row]

(* ---------------- a concrete order, to check that the axioms are what is meant ---------------- *)
CONSTANTS Contents, MaxItems
LenLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j])
Observed(x, y) == Row(IF LenLess(y, x) THEN 0 ELSE 1, 0, x = y)
Next == Len(at) < MaxItems /\ \E x \in Contents :
          LET row == [j \in 1..Len(at) |-> Observed(x, chain[at[j]])] IN Meet(x, row)
Spec == Init /\ [][Next]_vars
Sorted == \A i, j \in 1..Len(chain) : i < j => LenLess(chain[i], chain[j])
Distinct == \A i, j \in 1..Len(chain) : i # j => chain[i] # chain[j]
Same == \A i \in 1..Len(at) : at[i] \in 1..Len(chain)
\* every item can be met: a total order never gets stuck
Total == (Len(at) < MaxItems) => \A x \in Contents : ENABLED Meet(x, [j \in 1..Len(at) |-> Observed(x, chain[at[j]])])
View == <<chain, at>>
=============================================================================
