-------------------------------- MODULE Wrap --------------------------------
(* An excluded member used as an ordinary variable: whatever is done to it   *)
(* gives what the same expression gives for a variable of the wrapped type.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind,   \* "num", "bool", "ptr", "class"
          Neg, Hi \* values from -Neg: numbers; positions in an array (-1: null); index of an object
Lo == -Neg
VARIABLES x, y,   \* two wrapped variables
          ev
vars == <<x, y, ev>>
Val == IF Kind = "bool" THEN {0, 1} ELSE Lo..Hi
B(c) == IF c THEN 1 ELSE 0
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Div(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))     \* as C++ divides
Mod(a, b) == a - b * Div(a, b)
Num == {"add", "sub", "mul", "div", "mod"}
Bin(o, a, b) == CASE o = "add" -> a + b [] o = "sub" -> a - b [] o = "mul" -> a * b
                  [] o = "div" -> Div(a, b) [] o = "mod" -> Mod(a, b)
(* exact where fractions would matter; no wrapping round of unsigned numbers *)
Def(o, a, b) == /\ o \in {"div", "mod"} => b # 0
                /\ Bin(o, a, b) >= Lo * Hi
Init == x = Lo /\ y = Lo /\ ev = [op |-> "init"]
Start == x' = Lo /\ y' = Lo /\ ev' = [op |-> "init"]
Look == [x |-> x', y |-> y']
Keep == UNCHANGED <<x, y>>
(* construction, assignment, copying, swapping, conversion, comparison: every kind *)
Assign(v) == x' = v /\ UNCHANGED y /\ ev' = [op |-> "assign", v |-> v, obs |-> Look @@ [r |-> v]]
Make(v) == x' = v /\ UNCHANGED y /\ ev' = [op |-> "make", v |-> v, obs |-> Look]
Copy == x' = y /\ UNCHANGED y /\ ev' = [op |-> "copy", obs |-> Look]
CopyMake == y' = x /\ UNCHANGED x /\ ev' = [op |-> "copymake", obs |-> Look]
Swap == x' = y /\ y' = x /\ ev' = [op |-> "swap", obs |-> Look]
Ask(v) == Keep /\ ev' = [op |-> "ask", v |-> v, obs |-> Look @@ [eqv |-> B(x = v), nev |-> B(x # v), eq |-> B(x = y), conv |-> x]]
(* through the reference the wrapper converts to *)
Through(v) == x' = v /\ UNCHANGED y /\ ev' = [op |-> "through", v |-> v, obs |-> Look]
Arith(o, v) == /\ Kind = "num" /\ Def(o, x, v) /\ Keep /\ ev' = [op |-> "bin", o |-> o, v |-> v, obs |-> Look @@ [r |-> Bin(o, x, v)]]
Compound(o, v) == /\ Kind = "num" /\ Def(o, x, v) /\ Bin(o, x, v) \in Val /\ (o = "div" => x = v * Bin(o, x, v)) /\ x' = Bin(o, x, v) /\ UNCHANGED y
                  /\ ev' = [op |-> "compound", o |-> o, v |-> v, obs |-> Look @@ [r |-> Bin(o, x, v)]]
Logic(v) == /\ Kind = "bool" /\ Keep
            /\ ev' = [op |-> "logic", v |-> v, obs |-> Look @@ [a |-> B(x = 1 /\ v = 1), or |-> B(x = 1 \/ v = 1), n |-> 1 - x]]
LogicTo(o, v) == /\ Kind = "bool" /\ x' = (IF o = "and" THEN B(x = 1 /\ v = 1) ELSE B(x = 1 \/ v = 1)) /\ UNCHANGED y
                 /\ ev' = [op |-> "logicto", o |-> o, v |-> v, obs |-> Look]
(* pointers into an array a of which element i holds 10 * i *)
Offset(n) == /\ Kind = "ptr" /\ x >= 0 /\ x + n \in 0..Hi /\ Keep
             /\ ev' = [op |-> "offset", v |-> n, obs |-> Look @@ [r |-> x + n, l |-> x + n]]
Dist(v) == /\ Kind = "ptr" /\ x >= 0 /\ v >= 0 /\ Keep /\ ev' = [op |-> "dist", v |-> v, obs |-> Look @@ [r |-> x - v, l |-> v - x]]
Deref == Kind = "ptr" /\ x >= 0 /\ Keep /\ ev' = [op |-> "deref", obs |-> Look @@ [r |-> 10 * x, a |-> 10 * x]]
Next == \/ \E v \in Val : Assign(v) \/ Make(v) \/ Ask(v) \/ Through(v) \/ Offset(v) \/ Offset(-v) \/ Dist(v) \/ Logic(v)
                          \/ \E o \in Num : Arith(o, v) \/ Compound(o, v)
                          \/ \E k \in {"and", "or"} : LogicTo(k, v)
        \/ Copy \/ CopyMake \/ Swap \/ Deref
Spec == Init /\ [][Next]_vars
TypeOK == x \in Val /\ y \in Val
(* asking changes nothing *)
Pure == [][ev'.op \in {"ask", "bin", "logic", "offset", "dist", "deref"} => x' = x /\ y' = y]_vars
St == [x |-> x, y |-> y]
Emit == PrintT(ToJson(<<St, ev', St'>>))
View == <<x, y>>
=============================================================================
