------------------------------ MODULE SlaveMC ------------------------------
EXTENDS Slave
CONSTANTS Procs, MaxJobs
VARIABLES given, ran, taken     \* how many jobs were dispatched; which ran where; whose results came back
mvars == <<vars, given, ran, taken>>
MCInit == Set(Procs) /\ given = 0 /\ ran = <<>> /\ taken = <<>>
Outstanding == {s \in Slaves: s \notin idle}
Ops == IF given < MaxJobs THEN {[op |-> "exec", m |-> m, x |-> given + 1] : m \in {1, 2}} \cup {[op |-> "bcast", m |-> 3, x |-> given + 1], [op |-> "direct", m |-> 3, x |-> given + 1, s |-> 1]} ELSE {}
MCNext ==
  \/ (\E s \in 0..(n - 1): \E o \in Ops: (o.op \in {"bcast", "direct"} => AllIdle) /\ Call(o, s) /\ given' = given + 1) /\ UNCHANGED <<ran, taken>>
  \/ ((Outstanding # {} /\ Call([op |-> "get"], 0)) \/ Call([op |-> "waitall"], 0)) /\ UNCHANGED <<given, ran, taken>>
  \/ \E s \in Slaves: Run(s) /\ ran' = Append(ran, [s |-> s, m |-> ev'.m, x |-> ev'.x]) /\ UNCHANGED <<given, taken>>
  \/ \E s \in Slaves: Exit(s) /\ UNCHANGED <<given, ran, taken>>
  \/ \E s \in 0..(n - 1): (s > 0 \/ master.op # "get") /\ Ret(s) /\ UNCHANGED <<given, ran>>
       /\ taken' = IF master.op = "get" THEN Append(taken, [s |-> s, vals |-> ev'.obs.vals]) ELSE taken
  \/ AllIdle /\ End /\ UNCHANGED <<given, ran, taken>>
MCSpec == MCInit /\ [][MCNext]_mvars
(* a slave is idle exactly if it has no outstanding job: one waiting, or its result *)
IdleIff == master.op \in {"none", "end"} => \A s \in Slaves: (s \in idle) <=> (back[s] = <<>> /\ \A i \in 1..Len(inbox[s]): ~Returns(inbox[s][i].m))
(* one job at a time *)
OneEach == \A s \in Slaves: Len(back[s]) + Len(SelectSeq(inbox[s], LAMBDA j: Returns(j.m))) <= 1
(* dispatched jobs run once and on one slave; the broadcast ones once on each *)
OnceRun == \A i, j \in 1..Len(ran): i # j /\ ran[i].x = ran[j].x => ran[i].m = 3 /\ ran[i].s # ran[j].s
(* no slave is shut down with a job left, and none is left over *)
Shut == /\ \A s \in Slaves: state[s] = "down" => inbox[s] = <<>> /\ back[s] = <<>>
        /\ master.op = "end" => \A s \in Slaves: state[s] = "down" \/ ENABLED (Run(s) \/ Exit(s))
(* the master is never kept for ever *)
Live == master.op \notin {"none", "end"} => (master.op # "get" /\ ENABLED Ret(0)) \/ (\E s \in Slaves: ENABLED Ret(s) \/ ENABLED Run(s))
MCView == <<n, idle, inbox, back, sum, state, master, given, ran, taken>>
=============================================================================
