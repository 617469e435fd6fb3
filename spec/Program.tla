------------------------------ MODULE Program ------------------------------
(* C++ class definitions, as the processor reads them, and what the descriptor generated for each
   class visits.  A program is a history of events: namespaces and classes are opened and closed,
   access labels are set, and declarations are made in the innermost class.  Every event says
   which visits of the descriptor it accounts for; the descriptor of a class makes exactly these,
   in order.  Kinds (read from JSON) says what each way of writing a declaration declares:
     c   category; st, co: static, constant
     d   its declarators: f = "s" an object, "a" an array with dims, "m" a method that is not
         overloaded, "-" a name that is not described (types, overloaded and deleted methods)  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Setup == JsonDeserialize(IOEnv.SETUP)
Kinds == Setup.kinds
Opt == Setup.opt          \* rp: private members are respected; onbase: bases use their own descriptor

VARIABLES scopes, last, ev
vars == <<scopes, last, ev>>

File == [s |-> "file", acc |-> "pub", seen |-> TRUE, tmpl |-> FALSE, need |-> "no"]
Top == scopes[Len(scopes)]
InClass == Top.s = "class"
Pop == SubSeq(scopes, 1, Len(scopes) - 1)
Init == scopes = <<File>> /\ last = 0 /\ ev = [op |-> "init"]

Visible(acc) == ~Opt.rp \/ acc = "pub"

\* the visits that declarators account for: which one, how, with which dimensions
How(st, co, d) == CASE d.f = "a" -> "a" [] d.f = "m" -> "m" [] st = 1 /\ co = 1 -> "c" [] OTHER -> "v"
Visits(k, d, acc) ==
  IF ~Visible(acc) THEN <<>>
  ELSE LET idx == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i: d[i].f # "-")
       IN [j \in 1..Len(idx) |-> [i |-> idx[j], k |-> How(k.st, k.co, d[idx[j]]),
                                  dims |-> IF d[idx[j]].f = "a" THEN d[idx[j]].dims ELSE <<>>]]

\* public by default in a struct, private in a class: members and bases alike
Default(kw) == IF kw = "class" THEN "priv" ELSE "pub"
BaseAcc(kw, b) == IF b.a = "none" THEN Default(kw) ELSE b.a
BaseVisits(kw, bases) ==
  LET idx == SelectSeq([i \in 1..Len(bases) |-> i], LAMBDA i: Visible(BaseAcc(kw, bases[i])))
  IN [j \in 1..Len(idx) |-> [i |-> idx[j], k |-> IF Opt.onbase THEN "b" ELSE "v", dims |-> <<>>]]

\* a class is described unless it cannot be named from outside (a private member class),
\* or is a member of a template or of a specialisation of one (tmpl)
Described(tmpl) == Top.seen /\ ~(InClass /\ (Top.acc # "pub" \/ Top.tmpl))

NsOpen == ~InClass /\ scopes' = Append(scopes, [File EXCEPT !.s = "ns"]) /\ last' = 0 /\ ev' = [op |-> "ns"]
NsClose == Top.s = "ns" /\ scopes' = Pop /\ last' = 0 /\ ev' = [op |-> "nsend"]
Other(k) == ~InClass /\ UNCHANGED scopes /\ last' = 0 /\ ev' = [op |-> "other", k |-> k]
\* whether a class needs a declaration giving descriptors access: if members or bases are not
\* public it does, if it is a struct without any labels or such bases it does not
Open(kw, tmpl, bases) ==
  /\ scopes' = Append(scopes, [s |-> "class", acc |-> Default(kw), seen |-> Described(tmpl), tmpl |-> tmpl,
        need |-> IF \E i \in 1..Len(bases): BaseAcc(kw, bases[i]) # "pub" THEN "yes" ELSE IF kw = "class" THEN "any" ELSE "no"])
  /\ last' = 0
  /\ ev' = [op |-> "open", kw |-> kw, tmpl |-> tmpl, bases |-> bases, described |-> Described(tmpl),
            obs |-> BaseVisits(kw, bases)]
Label(a) ==
  /\ InClass /\ UNCHANGED last
  /\ scopes' = [scopes EXCEPT ![Len(scopes)].acc = a,
                               ![Len(scopes)].need = IF @ = "no" /\ a # "pub" THEN "any" ELSE @]
  /\ ev' = [op |-> "label", a |-> a]
Decl(k) ==
  /\ InClass /\ last' = k
  /\ scopes' = [scopes EXCEPT ![Len(scopes)].need = IF Top.acc # "pub" /\ \E i \in 1..Len(Kinds[k].d): Kinds[k].d[i].f # "-" THEN "yes" ELSE @]
  /\ ev' = [op |-> "decl", k |-> k, acc |-> Top.acc, obs |-> Visits(Kinds[k], Kinds[k].d, Top.acc)]
\* the end of a class; members of the enclosing class may be declared with it
Close(d) ==
  /\ InClass /\ last' = 0
  /\ Len(d) > 0 => Pop[Len(Pop)].s = "class"
  /\ scopes' = IF Len(d) > 0 /\ Pop[Len(Pop)].acc # "pub" THEN [Pop EXCEPT ![Len(Pop)].need = "yes"] ELSE Pop
  /\ ev' = [op |-> "close", d |-> d, described |-> Top.seen, need |-> Top.need,
            obs |-> [ordered |-> TRUE, extra |-> 0, members |-> Visits([st |-> 0, co |-> 0], d, Pop[Len(Pop)].acc)]]
=============================================================================
