------------------------------ MODULE Factory ------------------------------
(* Factories: a name is bound to the class first registered under it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Names,     \* as many names, the first ones those the classes give themselves
          Classes, Facs
VARIABLES reg,       \* factory -> name -> class, or 0
          made,      \* objects alive, made by the factories: sequence of [k, v]
          ev
vars == <<reg, made, ev>>
N == 1..Names  K == 1..Classes  F == 1..Facs
Own(k) == k                               \* the name class k gives itself
None == [n \in N |-> 0]
(* every factory begins with what its constructor registers: the first class, under its own name *)
Fresh == [None EXCEPT ![1] = 1]
Init == reg = [f \in F |-> Fresh] /\ made = <<>> /\ ev = [op |-> "init"]
RECURSIVE Listed(_, _)
Listed(r, n) == IF n > Names THEN <<>> ELSE (IF r[n] # 0 THEN <<n>> ELSE <<>>) \o Listed(r, n + 1)
Register(f, n, k) == /\ reg' = [reg EXCEPT ![f][n] = IF @ = 0 THEN k ELSE @] /\ UNCHANGED made
                     /\ ev' = [op |-> "register", f |-> f, n |-> n, k |-> k, obs |-> [types |-> Listed(reg'[f], 1)]]
RegisterOwn(f, k) == /\ reg' = [reg EXCEPT ![f][Own(k)] = IF @ = 0 THEN k ELSE @] /\ UNCHANGED made
                     /\ ev' = [op |-> "own", f |-> f, k |-> k, obs |-> [types |-> Listed(reg'[f], 1)]]
(* a new object each time, as the default constructor leaves it *)
Create(f, n) == /\ UNCHANGED reg
                /\ made' = IF reg[f][n] = 0 THEN made ELSE Append(made, [k |-> reg[f][n], v |-> 0])
                /\ ev' = [op |-> "create", f |-> f, n |-> n, obs |-> [ret |-> IF reg[f][n] = 0 THEN "err" ELSE "ok", made |-> made']]
Change(i, v) == /\ i <= Len(made) /\ made' = [made EXCEPT ![i].v = v] /\ UNCHANGED reg
                /\ ev' = [op |-> "change", i |-> i, v |-> v, obs |-> [made |-> made']]
Destroy == /\ made # <<>> /\ made' = Tail(made) /\ UNCHANGED reg
           /\ ev' = [op |-> "destroy", obs |-> [made |-> made']]
Copy(f, g) == /\ reg' = [reg EXCEPT ![g] = reg[f]] /\ UNCHANGED made
              /\ ev' = [op |-> "copy", f |-> f, g |-> g, obs |-> [types |-> Listed(reg'[g], 1)]]
(* a factory of its own again *)
Renew(f) == /\ reg' = [reg EXCEPT ![f] = Fresh] /\ UNCHANGED made
            /\ ev' = [op |-> "renew", f |-> f, obs |-> [types |-> Listed(reg'[f], 1)]]
=============================================================================
