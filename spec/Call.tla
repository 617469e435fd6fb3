-------------------------------- MODULE Call --------------------------------
(* Calling functions through the library: directly, with an array of        *)
(* arguments, bound to an object, or from a buffer of arguments.            *)
(* The functions come from a program (IOEnv.PROG): each has the types of    *)
(* its arguments and of what it returns, the class it is a method of, and   *)
(* whether it is constant.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES sums,      \* object -> what it remembers of the calls on it
          bound,     \* method -> the object it is bound to, or -1
          cbound,    \* method -> the object it is bound to as a constant, or -1
          buf,       \* arguments in the buffer: sequence of [t, v]
          ev
vars == <<sums, bound, cbound, buf, ev>>
Prog == JsonDeserialize(IOEnv.PROG)
Fns == Prog.fns
NObj == Prog.nobj
FN == 1..Len(Fns)
Init == /\ sums = [o \in 1..NObj |-> 0] /\ bound = [f \in FN |-> -1] /\ cbound = [f \in FN |-> -1] /\ buf = <<>> /\ ev = [op |-> "init"]
Conv(t, v) == CASE t = "bool" -> (v % 2) [] t = "char" -> (v % 128) [] t = "E" -> (v % 3) [] OTHER -> v
Given(f, a) == [i \in 1..Len(a) |-> Conv(Fns[f].bases[i], a[i])]
RECURSIVE Weigh(_, _)
Weigh(a, i) == IF i > Len(a) THEN 0 ELSE i * a[i] + Weigh(a, i + 1)
Method(f) == Fns[f].class # ""
(* the function f is called once on the object o with the arguments a - or not at all: *)
(* a method that may change its object is never called on a constant                    *)
Refused(f, way) == Method(f) /\ way = "const" /\ ~Fns[f].const
After(f, o, a) == IF Method(f) /\ ~Fns[f].const THEN [sums EXCEPT ![o + 1] = (@ + f + Weigh(a, 1)) % 1000] ELSE sums
Value(f, o, a) == (7 * f + (IF Method(f) THEN After(f, o, a)[o + 1] ELSE 0) + Weigh(a, 1)) % 100
Returned(f, o, a) == CASE Fns[f].ret = "void" -> <<>>
                       [] Fns[f].ref -> <<Conv(Fns[f].retbase, Value(f, o, a)), 1>>       \* the very object the function refers to
                       [] OTHER -> <<Conv(Fns[f].retbase, Value(f, o, a))>>
On(f, way) == IF ~Method(f) THEN 0 ELSE IF way = "const" THEN cbound[f] ELSE bound[f]
Invoke(f, way, a) == LET o == On(f, way) IN
   IF Refused(f, way) THEN [sums |-> sums, obs |-> [ret |-> <<-777>>, calls |-> <<>>, sums |-> sums]]
   ELSE [sums |-> After(f, o, a), obs |-> [ret |-> Returned(f, o, a), calls |-> <<[f |-> f, o |-> o, a |-> a]>>, sums |-> After(f, o, a)]]
Ways(f) == IF Method(f) THEN {"bound", "const"} ELSE {"ptr", "fun"}
Nothing == [ret |-> <<>>, calls |-> <<>>, sums |-> sums]
(* how: called with its arguments, or applied to an array of them *)
Call(how, f, way, a) == /\ how \in {"call", "apply", "applyv"} /\ way \in Ways(f) /\ On(f, way) >= 0 /\ Len(a) = Len(Fns[f].args)
                        /\ LET r == Invoke(f, way, Given(f, a)) IN
                           sums' = r.sums /\ ev' = [op |-> how, f |-> f, way |-> way, a |-> a, obs |-> r.obs]
                        /\ UNCHANGED <<bound, cbound, buf>>
Bind(how, f, way, o) == /\ how \in {"bind", "rebind"} /\ Method(f) /\ way \in Ways(f) /\ o \in 0..(NObj - 1) /\ (how = "rebind" => On(f, way) >= 0)
                        /\ bound' = (IF way = "bound" THEN [bound EXCEPT ![f] = o] ELSE bound)
                        /\ cbound' = (IF way = "const" THEN [cbound EXCEPT ![f] = o] ELSE cbound)
                        /\ UNCHANGED <<sums, buf>> /\ ev' = [op |-> how, f |-> f, way |-> way, o |-> o, obs |-> Nothing]
Copy(f, way) == /\ Method(f) /\ On(f, way) >= 0 /\ UNCHANGED <<sums, bound, cbound, buf>> /\ ev' = [op |-> "copy", f |-> f, way |-> way, obs |-> Nothing]
(* way: as they are, or converted to what the function is declared to take *)
Pack(f, way, a) == /\ Len(a) = Len(Fns[f].args) /\ way \in {"raw", "args", "sig", "fun"}
                   /\ buf' = buf \o [i \in 1..Len(a) |-> [t |-> Fns[f].bases[i], v |-> Given(f, a)[i]]]
                   /\ UNCHANGED <<sums, bound, cbound>> /\ ev' = [op |-> "pack", f |-> f, way |-> way, a |-> a, obs |-> Nothing]
Ready(f) == Len(buf) >= Len(Fns[f].args) /\ \A i \in 1..Len(Fns[f].args): buf[i].t = Fns[f].bases[i]
Run(how, f, way) == /\ how \in {"run", "runp"} /\ way \in Ways(f) /\ On(f, way) >= 0 /\ Ready(f)
                    /\ LET n == Len(Fns[f].args)  r == Invoke(f, way, [i \in 1..n |-> buf[i].v]) IN
                       sums' = r.sums /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ ev' = [op |-> how, f |-> f, way |-> way, obs |-> r.obs]
                    /\ UNCHANGED <<bound, cbound>>
Clear == buf' = <<>> /\ UNCHANGED <<sums, bound, cbound>> /\ ev' = [op |-> "clear", obs |-> Nothing]
(* what the library says of a function *)
RECURSIVE Twice(_, _)
Twice(s, i) == IF i > Len(s) THEN <<>> ELSE <<s[i], s[i]>> \o Twice(s, i + 1)
Form(f) == LET n == ToString(Len(Fns[f].args)) IN <<"arity", n, n, "ret", Fns[f].ret, Fns[f].ret, "args">> \o Twice(Fns[f].args, 1)
Bit(b) == IF b THEN "1" ELSE "0"
Is(f) == <<"is", Bit(Method(f)) \o Bit(Method(f) /\ Fns[f].const) \o Bit(~Method(f)) \o "1">>
Described(f) == IF Method(f) THEN <<Form(f), Form(f), <<"bound", Bit(Fns[f].const) \o Bit(Fns[f].const)>>, Is(f), <<"class", Fns[f].class, Fns[f].class>>>>
                ELSE (IF Prog.unrolled THEN <<Form(f)>> ELSE <<Form(f), Form(f), Form(f)>>) \o <<Is(f)>>
Describe(f) == UNCHANGED <<sums, bound, cbound, buf>> /\ ev' = [op |-> "describe", f |-> f, obs |-> [desc |-> Described(f)]]
=============================================================================
