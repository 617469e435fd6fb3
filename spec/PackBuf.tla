------------------------------- MODULE PackBuf -------------------------------
(***************************************************************************)
(* The serialisation buffer: a byte sequence with an input end (the size)  *)
(* and an output position.  One action per public call; `ev` records the   *)
(* call, its arguments and what the caller can observe afterwards.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, PackEnc

CONSTANTS Bufs,      \* names of the buffers
          Kinds,     \* item kinds written and read (see Width)
          Vals,      \* byte values used by the generated behaviours
          Raws,      \* lengths of raw strings used by the generated behaviours
          MaxSize,   \* bound on the size of a buffer in generated behaviours
          Flags,     \* pointer-handling modes a buffer can be set to
          Seeks      \* BOOLEAN: allow rewinding, seeking, truncation, clearing

VARIABLES buf,       \* [Bufs -> [d: bytes, p: position, f: pointer mode, r: recursion limit]]
          ev,        \* last call and what was observed
          inH, outH  \* ghosts: everything written to / read from each buffer

vars == <<buf, ev, inH, outH>>

Fresh == [d |-> <<>>, p |-> 0, f |-> 0, r |-> 500]

Take(s, n) == SubSeq(s, 1, n)
Size(x) == Len(x.d)
More(x) == x.p < Size(x)

\* what a caller sees of one buffer
See(x) == <<Size(x), x.p, IF More(x) THEN 1 ELSE 0, x.f, x.r>>
Obs(b2, ret, val) == [ret |-> ret, val |-> val, st |-> [b \in Bufs |-> See(b2[b])]]

Init == /\ buf = [b \in Bufs |-> Fresh]
        /\ ev = [op |-> "init"]
        /\ inH = [b \in Bufs |-> <<>>] /\ outH = [b \in Bufs |-> <<>>]

Ok(b2) == Obs(b2, "ok", <<>>)

(* ------------------------------------------------------------- writing *)
Extend(b, bs) == [buf EXCEPT ![b].d = @ \o bs]
Put(b, e) == /\ buf' = Extend(b, e)
             /\ inH' = [inH EXCEPT ![b] = @ \o e] /\ UNCHANGED outH

Write(b, k, v) ==
  /\ Len(v) = Width(k)
  /\ Put(b, Encode(k, v))
  /\ ev' = [op |-> "write", b |-> b, k |-> k, v |-> v, obs |-> Ok(buf')]

WriteRaw(b, v) ==
  /\ Put(b, EncodeRaw(v))
  /\ ev' = [op |-> "writeraw", b |-> b, v |-> v, obs |-> Ok(buf')]

\* an array of items of one kind, through the array descriptor
WriteArr(b, k, n, v) ==
  /\ Len(v) = n * Width(k)
  /\ Put(b, EncodeArr(k, n, v))
  /\ ev' = [op |-> "writearr", b |-> b, k |-> k, n |-> n, v |-> v, obs |-> Ok(buf')]

(* ------------------------------------------------------------- reading *)
CanRead(b, n) == buf[b].p + n <= Size(buf[b])
Next_n(b, n) == SubSeq(buf[b].d, buf[b].p + 1, buf[b].p + n)
Get(b, n) ==
  IF CanRead(b, n)
    THEN /\ buf' = [buf EXCEPT ![b].p = @ + n]
         /\ outH' = [outH EXCEPT ![b] = @ \o Next_n(b, n)]
         /\ UNCHANGED inH
    ELSE UNCHANGED <<buf, inH, outH>>

Read(b, k) ==
  LET n == EncWidth(k) IN
  /\ Get(b, n)
  /\ ev' = [op |-> "read", b |-> b, k |-> k,
            obs |-> IF CanRead(b, n) THEN Obs(buf', "ok", Decode(k, Next_n(b, n))) ELSE Obs(buf', "err", <<>>)]

ReadRaw(b, n) ==
  LET m == RawWidth(n) IN
  /\ Get(b, m)
  /\ ev' = [op |-> "readraw", b |-> b, n |-> n,
            obs |-> IF CanRead(b, m) THEN Obs(buf', "ok", DecodeRaw(n, Next_n(b, m))) ELSE Obs(buf', "err", <<>>)]

\* an array of items: either all of it, or an error after the items that were there
ReadArr(b, k, n) ==
  LET m == ArrWidth(k, n)
      avail == IF (buf[b].p > Size(buf[b]) \/ k = "char") THEN 0 ELSE (Size(buf[b]) - buf[b].p) \div EncWidth(k)
  IN IF CanRead(b, m) \/ (n = 0 /\ k # "char")
       THEN /\ Get(b, m)
            /\ ev' = [op |-> "readarr", b |-> b, k |-> k, n |-> n, obs |-> Obs(buf', "ok", DecodeArr(k, n, Next_n(b, m)))]
       ELSE /\ Get(b, avail * EncWidth(k))
            /\ ev' = [op |-> "readarr", b |-> b, k |-> k, n |-> n, obs |-> Obs(buf', "err", <<>>)]

\* a request whose length no buffer can satisfy; h names it (top of the size range)
ReadHuge(b, h) ==
  /\ UNCHANGED <<buf, inH, outH>>
  /\ ev' = [op |-> "readhuge", b |-> b, h |-> h, obs |-> Obs(buf', "err", <<>>)]

\* everything held by the buffer, looked at in place
Look(b) ==
  /\ UNCHANGED <<buf, inH, outH>>
  /\ ev' = [op |-> "look", b |-> b, obs |-> Obs(buf', "ok", buf[b].d)]

(* ------------------------------------------------ positioning and reuse *)
ForgetH == inH' = inH /\ outH' = outH

ResetI(b) == /\ buf' = [buf EXCEPT ![b].d = <<>>] /\ ForgetH
             /\ ev' = [op |-> "reseti", b |-> b, obs |-> Ok(buf')]
ResetO(b) == /\ buf' = [buf EXCEPT ![b].p = 0] /\ ForgetH
             /\ ev' = [op |-> "reseto", b |-> b, obs |-> Ok(buf')]
SeekI(b, n) == /\ n <= Size(buf[b])
               /\ buf' = [buf EXCEPT ![b].d = Take(@, Size(buf[b]) - n)] /\ ForgetH
               /\ ev' = [op |-> "seeki", b |-> b, n |-> n, obs |-> Ok(buf')]
\* n may be negative
SeekO(b, n) == /\ buf[b].p + n >= 0
               /\ buf' = [buf EXCEPT ![b].p = @ + n] /\ ForgetH
               /\ ev' = [op |-> "seeko", b |-> b, n |-> n, obs |-> Ok(buf')]
Clear(b) == /\ buf' = [buf EXCEPT ![b].d = <<>>, ![b].p = 0] /\ ForgetH
            /\ ev' = [op |-> "clear", b |-> b, obs |-> Ok(buf')]
\* resize to a larger size and fill the new part in place
Grow(b, bs) == /\ buf' = Extend(b, bs)
               /\ inH' = [inH EXCEPT ![b] = @ \o bs] /\ UNCHANGED outH
               /\ ev' = [op |-> "grow", b |-> b, v |-> bs, obs |-> Ok(buf')]
Shrink(b, n) == /\ n <= Size(buf[b])
                /\ buf' = [buf EXCEPT ![b].d = Take(@, n)] /\ ForgetH
                /\ ev' = [op |-> "shrink", b |-> b, n |-> n, obs |-> Ok(buf')]
\* replace the object by a new one created with an initial size, filled in place
Renew(b, bs) == /\ buf' = [buf EXCEPT ![b] = [Fresh EXCEPT !.d = bs]] /\ ForgetH
                /\ ev' = [op |-> "renew", b |-> b, v |-> bs, obs |-> Ok(buf')]
SetFlags(b, f, r) == /\ buf' = [buf EXCEPT ![b].f = f, ![b].r = r] /\ ForgetH
                     /\ ev' = [op |-> "flags", b |-> b, f |-> f, r |-> r, obs |-> Ok(buf')]

(* -------------------------------------------------- transferring state *)
Swap(a, b) == /\ buf' = [buf EXCEPT ![a] = buf[b], ![b] = buf[a]] /\ ForgetH
              /\ ev' = [op |-> "swap", b |-> a, c |-> b, obs |-> Ok(buf')]
\* a takes b's state; the moved-from object is destroyed and replaced by a new one
MoveTo(a, b) == /\ a # b
                /\ buf' = [buf EXCEPT ![a] = buf[b], ![b] = Fresh] /\ ForgetH
                /\ ev' = [op |-> "moveto", b |-> a, c |-> b, obs |-> Ok(buf')]
\* as above but a is a newly move-constructed object
MoveNew(a, b) == /\ a # b
                 /\ buf' = [buf EXCEPT ![a] = buf[b], ![b] = Fresh] /\ ForgetH
                 /\ ev' = [op |-> "movenew", b |-> a, c |-> b, obs |-> Ok(buf')]

(* -------------------------------------------------- generated behaviours *)
Fill(n) == [1..n -> Vals]
\* values of kind k whose low byte varies
Values(k) == {[i \in 1..Width(k) |-> IF i = 1 THEN x ELSE y] : x, y \in Vals}
Fits(b, n) == Size(buf[b]) + n <= MaxSize

Streaming ==
  \E b \in Bufs :
    \/ \E k \in Kinds : Fits(b, EncWidth(k)) /\ \E v \in Values(k) : Write(b, k, v)
    \/ \E n \in Raws : Fits(b, RawWidth(n)) /\ \E v \in Fill(n) : WriteRaw(b, v)
    \/ \E k \in Kinds : Read(b, k)
    \/ \E n \in Raws : ReadRaw(b, n)

Whole == {n \in 0..MaxSize : n % Unit = 0}
Positioning ==
  \E b \in Bufs :
    \/ ReadHuge(b, "max") \/ Look(b)
    \/ ResetI(b) \/ ResetO(b) \/ Clear(b)
    \/ \E n \in Whole : SeekI(b, n)
    \/ \E n \in Whole : buf[b].p + n <= Size(buf[b]) /\ SeekO(b, n)
    \/ \E n \in Whole : SeekO(b, -n)
    \/ \E n \in Raws : Fits(b, RawWidth(n)) /\ \E v \in Fill(n) : Grow(b, EncodeRaw(v))
    \/ \E n \in Whole : Shrink(b, n)
    \/ \E n \in Raws : RawWidth(n) <= MaxSize /\ \E v \in Fill(n) : Renew(b, EncodeRaw(v))
    \/ \E f \in Flags : SetFlags(b, f, 500 + f)

Transfer ==
  \E a, b \in Bufs : (a # b /\ Swap(a, b)) \/ MoveTo(a, b) \/ MoveNew(a, b)

Next == Streaming \/ (Seeks /\ (Positioning \/ Transfer))
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
TypeOK == \A b \in Bufs : /\ buf[b].p \in Nat
                          /\ \A i \in 1..Size(buf[b]) : buf[b].d[i] \in 0..255

\* without repositioning, what has been read followed by what is left is what was written
Fifo == (~Seeks) => \A b \in Bufs :
            inH[b] = outH[b] \o SubSeq(buf[b].d, buf[b].p + 1, Size(buf[b]))
\* a failed call changes nothing
FailStutters == [][(ev'.op \notin {"init", "readarr"} /\ ev'.obs.ret = "err") => UNCHANGED buf]_vars
\* operations on one buffer leave the others alone
Locality == [][\A b \in Bufs : (ev'.b # b /\ ~(ev'.op \in {"swap", "moveto", "movenew"} /\ ev'.c = b)) => buf'[b] = buf[b]]_vars
\* reading never consumes more than is there
NoOverrun == (~Seeks) => \A b \in Bufs : buf[b].p <= Size(buf[b])
\* transfers neither lose nor duplicate contents
Conserve == [][(ev'.op = "swap") => {buf'[b] : b \in Bufs} = {buf[b] : b \in Bufs}]_vars

(* ------------------------------------------ export of the state graph *)
Short == \A b \in Bufs : Len(inH[b]) <= 6
Short12 == \A b \in Bufs : Len(inH[b]) <= 12
GraphView == <<buf>>
Emit == PrintT(ToJson(<<buf, ev', buf'>>))
=============================================================================
