-------------------------------- MODULE Xml --------------------------------
(* Objects written as XML documents, and read back from documents that the  *)
(* library or anybody else wrote.                                           *)
(*                                                                          *)
(* A document is a tree of nodes [n |-> name, r |-> readings, c |-> child   *)
(* nodes], obtained with an independent parser. The readings of a node are  *)
(* what its text means in each lexical class: s as it stands, i an integer, *)
(* f/d a float/double, b a truth value, c a character, y a symbol; w says   *)
(* the text is blank. A class in which the text means nothing is missing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Table == ndJsonDeserialize(IOEnv.TYPES)
CONSTANTS Observe      \* the document is the one observed, otherwise the expected one

VARIABLES ty,    \* type of each slot
          val,   \* object in each slot
          docs,  \* sequence of [t |-> type, d |-> document, n |-> root name]
          ev
vars == <<ty, val, docs, ev>>

Leaf(t) == t.k \in {"scalar", "const", "str", "enum"}
IsArr(t) == t.k = "arr" /\ ~t.std

--------------------------------------------------------------------------
(* What an object looks like as XML *)
RECURSIVE Flat(_, _), Flats(_, _, _)
Flat(t, v) == IF IsArr(t) THEN Flats(t.e, v, 1) ELSE <<[t |-> t, v |-> v]>>
Flats(e, v, i) == IF i > Len(v) THEN <<>> ELSE Flat(e, v[i]) \o Flats(e, v, i + 1)

RECURSIVE Member(_, _, _), Els(_, _), ClassEls(_, _, _)
Member(n, t, v) ==
  CASE t.k = "excl" -> <<>>
    [] t.k = "ptr" -> IF v = <<>> THEN <<>> ELSE Member(n, t.e, v[1])
    [] OTHER -> <<[n |-> n, t |-> t, v |-> v]>>
ClassEls(t, v, i) ==
  IF i > Len(v) THEN <<>>
  ELSE (IF t.nm[i] = "" THEN Els(t.m[i], v[i]) ELSE Member(t.nm[i], t.m[i], v[i])) \o ClassEls(t, v, i + 1)
Els(t, v) ==
  CASE t.k = "class" -> ClassEls(t, v, 1)
    [] IsArr(t) -> LET f == Flat(t, v) IN [i \in 1..Len(f) |-> [n |-> t.en, t |-> f[i].t, v |-> f[i].v]]
    [] t.k \in {"seq", "set", "arr"} -> [i \in 1..Len(v) |-> [n |-> t.en, t |-> t.e, v |-> v[i]]]
    [] t.k = "map" -> [i \in 1..Len(v) |-> [n |-> "pair", t |-> t.p, v |-> v[i]]]
    [] t.k = "pair" -> Member("first", t.a, v[1]) \o Member("second", t.b, v[2])

LeafEq(t, v, r) ==
  CASE t.k = "str" -> r.s = v
    [] t.k = "enum" -> "y" \in DOMAIN r /\ \E i \in 1..Len(t.syms) : t.syms[i] = <<r.y, v>>
    [] OTHER -> t.lex \in DOMAIN r /\ r[t.lex] = v
RECURSIVE Match(_, _, _)
Match(t, v, x) ==
  IF Leaf(t) THEN x.c = <<>> /\ LeafEq(t, v, x.r)
  ELSE LET es == Els(t, v) IN
       /\ "w" \in DOMAIN x.r /\ Len(es) = Len(x.c)
       /\ \A i \in 1..Len(es) : es[i].n = x.c[i].n
       /\ IF t.u   \* the entries come in any order
          THEN \A i \in 1..Len(es) :
                 /\ \E j \in 1..Len(es) : Match(es[j].t, es[j].v, x.c[i])
                 /\ Cardinality({j \in 1..Len(es) : Match(es[i].t, es[i].v, x.c[j])}) = Cardinality({j \in 1..Len(es) : es[j] = es[i]})
          ELSE \A i \in 1..Len(es) : Match(es[i].t, es[i].v, x.c[i])

(* The document expected for an object *)
LeafReadings(t, v) ==
  CASE t.k = "str" -> [s |-> v]
    [] t.k = "enum" -> [s |-> "-", y |-> t.syms[CHOOSE i \in 1..Len(t.syms) : t.syms[i][2] = v][1]]
    [] OTHER -> [x \in {"s", t.lex} |-> IF x = "s" THEN "-" ELSE v]
RECURSIVE Build(_, _, _)
Build(n, t, v) ==
  IF Leaf(t) THEN [n |-> n, r |-> LeafReadings(t, v), c |-> <<>>]
  ELSE LET es == Els(t, v) IN [n |-> n, r |-> [s |-> "-", w |-> 1], c |-> [i \in 1..Len(es) |-> Build(es[i].n, es[i].t, es[i].v)]]

--------------------------------------------------------------------------
(* What reading a document makes of an object that holds p *)
Named(x, n) == SelectSeq(x.c, LAMBDA y : y.n = n)
RECURSIVE Size(_)
Size(t) == IF IsArr(t) THEN t.n * Size(t.e) ELSE 1

RECURSIVE Absent(_, _)      \* no element: unchanged, but a smart pointer becomes null
Absent(t, p) ==
  CASE t.k = "class" -> [i \in 1..Len(p) |-> Absent(t.m[i], p[i])]
    [] IsArr(t) -> [i \in 1..Len(p) |-> Absent(t.e, p[i])]
    [] t.k = "pair" -> <<Absent(t.a, p[1]), Absent(t.b, p[2])>>
    [] t.k = "ptr" -> <<>>
    [] OTHER -> p

RECURSIVE Read(_, _, _), ReadMember(_, _, _, _), ReadArr(_, _, _, _)
ReadArr(t, kids, off, p) ==
  [i \in 1..Len(p) |->
     LET at == off + (i - 1) * Size(t.e) IN
     IF IsArr(t.e) THEN ReadArr(t.e, kids, at, p[i])
     ELSE IF at + 1 <= Len(kids) THEN Read(t.e, kids[at + 1], p[i]) ELSE Absent(t.e, p[i])]
ReadMember(n, t, x, p) ==
  IF t.k \in {"excl", "const"} THEN p
  ELSE LET k == Named(x, n) IN
       IF k = <<>> THEN Absent(t, p)
       ELSE IF t.k = "ptr" THEN <<Read(t.e, k[1], t.e.d)>> ELSE Read(t, k[1], p)
Read(t, x, p) ==
  CASE t.k = "scalar" -> IF t.lex \in DOMAIN x.r THEN x.r[t.lex] ELSE p
    [] t.k = "str" -> x.r.s
    [] t.k = "enum" -> IF "y" \in DOMAIN x.r /\ \E i \in 1..Len(t.syms) : t.syms[i][1] = x.r.y
                       THEN t.syms[CHOOSE i \in 1..Len(t.syms) : t.syms[i][1] = x.r.y][2] ELSE p
    [] t.k = "class" -> [i \in 1..Len(p) |-> IF t.nm[i] = "" THEN Read(t.m[i], x, p[i]) ELSE ReadMember(t.nm[i], t.m[i], x, p[i])]
    [] IsArr(t) -> ReadArr(t, Named(x, t.en), 0, p)
    [] t.k = "arr" -> LET k == Named(x, t.en) IN [i \in 1..Len(p) |-> IF i <= Len(k) THEN Read(t.e, k[i], p[i]) ELSE p[i]]
    [] t.k \in {"seq", "set"} -> LET k == Named(x, t.en) IN [i \in 1..Len(k) |-> Read(t.e, k[i], t.e.d)]
    [] t.k = "map" -> LET k == Named(x, "pair") IN [i \in 1..Len(k) |-> Read(t.p, k[i], t.p.d)]
    [] t.k = "pair" -> <<ReadMember("first", t.a, x, p[1]), ReadMember("second", t.b, x, p[2])>>
    [] t.k = "ptr" -> <<Read(t.e, x, t.e.d)>>
    [] OTHER -> p

(* Something needed is not in the document: noticed on request *)
RECURSIVE MissingIn(_), Missing(_, _), MissingMember(_, _, _), LeafType(_)
MissingIn(t) ==      \* no element at all
  CASE Leaf(t) -> t.k # "const"
    [] t.k = "class" -> \E i \in 1..Len(t.m) : t.st[i] \/ MissingIn(t.m[i])
    [] IsArr(t) -> Size(t) > 0 /\ MissingIn(t.e)
    [] t.k = "pair" -> MissingIn(t.a) \/ MissingIn(t.b)
    [] OTHER -> FALSE
MissingMember(n, t, x) ==
  IF t.k \in {"excl", "const"} THEN FALSE
  ELSE LET k == Named(x, n) IN
       IF k = <<>> THEN MissingIn(t) ELSE IF t.k = "ptr" THEN Missing(t.e, k[1]) ELSE Missing(t, k[1])
LeafType(t) == IF IsArr(t) THEN LeafType(t.e) ELSE t
Missing(t, x) ==
  CASE t.k = "scalar" -> "e" \in DOMAIN x.r
    [] t.k = "class" -> \E i \in 1..Len(t.m) : IF t.st[i] THEN Named(x, t.nm[i]) = <<>> ELSE IF t.nm[i] = "" THEN Missing(t.m[i], x) ELSE MissingMember(t.nm[i], t.m[i], x)
    [] IsArr(t) -> LET k == Named(x, t.en) IN \E i \in 1..Size(t) : IF i <= Len(k) THEN Missing(LeafType(t), k[i]) ELSE MissingIn(LeafType(t))
    [] t.k \in {"arr", "seq", "set"} -> LET k == Named(x, t.en) IN \E i \in 1..Len(k) : (t.k = "arr" => i <= t.n) /\ Missing(t.e, k[i])
    [] t.k = "map" -> LET k == Named(x, "pair") IN \E i \in 1..Len(k) : Missing(t.p, k[i])
    [] t.k = "pair" -> MissingMember("first", t.a, x) \/ MissingMember("second", t.b, x)
    [] t.k = "ptr" -> Missing(t.e, x)
    [] OTHER -> FALSE

(* Equal up to the order of unordered containers *)
RECURSIVE Same(_, _, _)
Same(t, a, b) ==
  IF ~t.au \/ t.k = "excl" THEN a = b
  ELSE /\ Len(a) = Len(b)
       /\ IF t.u THEN \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
          ELSE CASE t.k = "class" -> \A i \in 1..Len(a) : Same(t.m[i], a[i], b[i])
                 [] t.k = "map" -> \A i \in 1..Len(a) : Same(t.p, a[i], b[i])
                 [] t.k = "pair" -> Same(t.a, a[1], b[1]) /\ Same(t.b, a[2], b[2])
                 [] OTHER -> \A i \in 1..Len(a) : Same(t.e, a[i], b[i])

--------------------------------------------------------------------------
T(s) == Table[ty[s]]
Slots == 1..Len(ty)
Init == ty = <<>> /\ val = <<>> /\ docs = <<>> /\ ev = [op |-> "init"]
NewSlot(i) == /\ ty' = Append(ty, i) /\ val' = Append(val, Table[i].d) /\ UNCHANGED docs
Set(s, v) == /\ val' = [val EXCEPT ![s] = v] /\ UNCHANGED <<ty, docs>>

(* Writing leaves the object alone; the document shows it.                  *)
Write(s, n, x) == /\ (Observe => (x.n = n /\ Match(T(s), val[s], x)))
                  /\ docs' = Append(docs, [t |-> ty[s], n |-> n, d |-> IF Observe THEN x ELSE Build(n, T(s), val[s])])
                  /\ UNCHANGED <<ty, val>>
(* A well-formed document from elsewhere *)
Load(i, x) == /\ docs' = Append(docs, [t |-> i, n |-> "root", d |-> x]) /\ UNCHANGED <<ty, val>>
ReadDoc(s, k) == LET d == docs[k] IN IF d.d.n = d.n THEN Read(T(s), d.d, val[s]) ELSE Absent(T(s), val[s])
ReadFails(s, k, strict) == LET d == docs[k] IN strict = 1 /\ (IF d.d.n = d.n THEN Missing(T(s), d.d) ELSE MissingIn(T(s)))
=============================================================================
