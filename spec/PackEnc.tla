------------------------------- MODULE PackEnc -------------------------------
(* How items are represented in a stream: natively (the bytes of the host's  *)
(* representation) or in the machine-independent XDR form (big-endian, every *)
(* item a multiple of four bytes).  Values are given as the host's bytes,    *)
(* least significant first.                                                  *)
EXTENDS Integers, Sequences
CONSTANT Enc            \* "native" or "xdr"

Width(k) == CASE k = "bool" -> 1 [] k = "char" -> 1 [] k = "schar" -> 1 [] k = "uchar" -> 1
              [] k = "short" -> 2 [] k = "ushort" -> 2 [] k = "int" -> 4 [] k = "uint" -> 4
              [] k = "float" -> 4 [] k = "wchar" -> 4
              [] k = "long" -> 8 [] k = "ulong" -> 8 [] k = "llong" -> 8 [] k = "ullong" -> 8
              [] k = "double" -> 8
Signed(k) == k \in {"char", "schar", "short"}

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]
Pad(n) == (4 - (n % 4)) % 4

EncWidth(k) == IF Enc = "native" THEN Width(k) ELSE IF Width(k) < 4 THEN 4 ELSE Width(k)
RawWidth(n) == IF Enc = "native" THEN n ELSE n + Pad(n)
Unit == IF Enc = "native" THEN 1 ELSE 4

\* sign or zero extension of a little-endian value to four bytes
Extend4(k, v) ==
  IF Len(v) >= 4 THEN v
  ELSE v \o Rep(IF Signed(k) /\ v[Len(v)] >= 128 THEN 255 ELSE 0, 4 - Len(v))

Encode(k, v) == IF Enc = "native" THEN v ELSE Rev(Extend4(k, v))
Decode(k, e) == IF Enc = "native" THEN e ELSE SubSeq(Rev(e), 1, Width(k))
EncodeRaw(v) == IF Enc = "native" THEN v ELSE v \o Rep(0, Pad(Len(v)))
DecodeRaw(n, e) == SubSeq(e, 1, n)
RECURSIVE EncodeItems(_, _, _)
EncodeItems(k, n, v) == IF n = 0 THEN <<>>
                        ELSE Encode(k, SubSeq(v, 1, Width(k))) \o EncodeItems(k, n - 1, SubSeq(v, Width(k) + 1, Len(v)))
\* arrays are streamed item by item, except that an array of char is one raw string
EncodeArr(k, n, v) == IF k = "char" THEN EncodeRaw(v) ELSE EncodeItems(k, n, v)
RECURSIVE DecodeItems(_, _, _)
DecodeItems(k, n, e) == IF n = 0 THEN <<>>
                        ELSE Decode(k, SubSeq(e, 1, EncWidth(k))) \o DecodeItems(k, n - 1, SubSeq(e, EncWidth(k) + 1, Len(e)))
DecodeArr(k, n, e) == IF k = "char" THEN DecodeRaw(n, e) ELSE DecodeItems(k, n, e)
ArrWidth(k, n) == IF k = "char" THEN RawWidth(n) ELSE n * EncWidth(k)
=============================================================================
