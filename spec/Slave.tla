------------------------------- MODULE Slave -------------------------------
(* A master dispatches jobs to slaves, processes 1..n-1.  A job is method m *)
(* with argument x; methods 1, 2, 4 and 5 return a message.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES n, idle,       \* slaves waiting for a job
          inbox,         \* slave -> jobs it has been sent and not begun
          back,          \* slave -> results it has sent and the master has not taken
          sum,           \* slave -> what its object remembers
          state,         \* slave -> "up" or "down"
          master,        \* the operation the master is in, "none", or "end"
          ev
vars == <<n, idle, inbox, back, sum, state, master, ev>>
Slaves == 1..(n - 1)
Stop == [m |-> 0, x |-> 0]
Returns(m) == m \in {1, 2, 4, 5}
None == [op |-> "none"]
Set(k) == /\ n = k /\ idle = 1..(k - 1) /\ inbox = [s \in 1..(k - 1) |-> <<>>] /\ back = [s \in 1..(k - 1) |-> <<>>]
          /\ sum = [s \in 1..(k - 1) |-> 0] /\ state = [s \in 1..(k - 1) |-> "up"] /\ master = None /\ ev = [op |-> "init"]
Again(k) == /\ n' = k /\ idle' = 1..(k - 1) /\ inbox' = [s \in 1..(k - 1) |-> <<>>] /\ back' = [s \in 1..(k - 1) |-> <<>>]
            /\ sum' = [s \in 1..(k - 1) |-> 0] /\ state' = [s \in 1..(k - 1) |-> "up"] /\ master' = None /\ ev' = [op |-> "init"]
Result(s, m, x) == CASE m = 1 -> <<2 * x>> [] m = 2 -> <<sum[s] + x>> [] m = 4 -> <<>> [] m = 5 -> [i \in 1..(x % 5) |-> x + i - 1]
AllIdle == Cardinality(idle) = n - 1
Give(s, j) == inbox' = [inbox EXCEPT ![s] = Append(@, j)]
GiveAll(j) == inbox' = [s \in Slaves |-> Append(inbox[s], j)]
(* s: the slave chosen by exec *)
Call(o, s) == /\ master.op = "none" /\ master' = o /\ UNCHANGED <<n, back, sum, state>>
              /\ CASE o.op = "exec" -> s \in idle /\ idle' = idle \ {s} /\ Give(s, [m |-> o.m, x |-> o.x])
                   [] o.op = "direct" -> s = o.s /\ UNCHANGED idle /\ Give(s, [m |-> o.m, x |-> o.x])
                   [] o.op = "bcast" -> s = 0 /\ UNCHANGED idle /\ GiveAll([m |-> o.m, x |-> o.x])
                   [] OTHER -> s = 0 /\ UNCHANGED <<idle, inbox>>
              /\ ev' = [op |-> "call", o |-> o]
Run(s) == /\ inbox[s] # <<>> /\ Head(inbox[s]) # Stop /\ state[s] = "up"
          /\ LET j == Head(inbox[s]) IN
             /\ inbox' = [inbox EXCEPT ![s] = Tail(@)]
             /\ sum' = [sum EXCEPT ![s] = IF j.m \in {2, 3} THEN @ + j.x ELSE @]
             /\ back' = (IF Returns(j.m) THEN [back EXCEPT ![s] = Append(@, Result(s, j.m, j.x))] ELSE back)
             /\ ev' = [op |-> "run", r |-> s, m |-> j.m, x |-> j.x]
          /\ UNCHANGED <<n, idle, state, master>>
Exit(s) == /\ inbox[s] # <<>> /\ Head(inbox[s]) = Stop /\ state[s] = "up"
           /\ inbox' = [inbox EXCEPT ![s] = Tail(@)] /\ state' = [state EXCEPT ![s] = "down"]
           /\ UNCHANGED <<n, idle, back, sum, master>> /\ ev' = [op |-> "exit", r |-> s]
See(i) == [idle |-> i, all |-> IF Cardinality(i) = n - 1 THEN 1 ELSE 0]
(* s: whose result is taken *)
Ret(s) == LET o == master IN
   /\ o.op \notin {"none", "end"} /\ master' = None /\ UNCHANGED <<n, inbox, sum, state>>
   /\ CASE o.op = "get" -> /\ back[s] # <<>> /\ back' = [back EXCEPT ![s] = Tail(@)] /\ idle' = idle \cup {s}
                           /\ ev' = [op |-> "ret", obs |-> See(idle') @@ [proc |-> s, vals |-> Head(back[s])]]
        [] o.op = "waitall" -> /\ s = 0 /\ (\A k \in Slaves: IF k \in idle THEN back[k] = <<>> ELSE Len(back[k]) = 1)
                               /\ back' = [k \in Slaves |-> <<>>] /\ idle' = Slaves /\ ev' = [op |-> "ret", obs |-> See(idle')]
        [] o.op = "value" -> s = 0 /\ UNCHANGED <<back, idle>> /\ ev' = [op |-> "ret", obs |-> See(idle) @@ [vals |-> <<o.x>>]]
        [] OTHER -> s = 0 /\ UNCHANGED <<back, idle>> /\ ev' = [op |-> "ret", obs |-> See(idle)]
End == /\ master.op = "none" /\ master' = [op |-> "end"] /\ GiveAll(Stop) /\ UNCHANGED <<n, idle, back, sum, state>> /\ ev' = [op |-> "end"]
(* nothing is left running *)
Over == master.op = "end" /\ (\A s \in Slaves: state[s] = "down" /\ inbox[s] = <<>> /\ back[s] = <<>>) /\ UNCHANGED vars
=============================================================================
