------------------------------ MODULE PackFile ------------------------------
(* A serialisation buffer that writes straight to, or reads straight from,  *)
(* a file.                                                                  *)
EXTENDS Integers, Sequences, TLC, Json, PackEnc
CONSTANTS Kinds, Vals, Raws, MaxSize

VARIABLES phase,   \* "new" (no file yet), "none" (closed), "w" (open for writing), "r" (open for reading), "lost" (a read has failed)
          file,    \* contents of the file
          at,      \* position of the open stream
          ev
vars == <<phase, file, at, ev>>

Obs(ret, val, a) == [ret |-> ret, val |-> val, at |-> a]
Init == phase = "new" /\ file = <<>> /\ at = 0 /\ ev = [op |-> "init"]

OpenW == /\ phase \in {"new", "none"} /\ phase' = "w" /\ file' = <<>> /\ at' = 0
         /\ ev' = [op |-> "openw", obs |-> Obs("ok", <<>>, 0)]
\* there is nothing to read before the first write session
OpenR == /\ phase \in {"new", "none"} /\ phase' = (IF phase = "new" THEN "new" ELSE "r") /\ at' = 0 /\ UNCHANGED file
         /\ ev' = [op |-> "openr", obs |-> Obs(IF phase = "new" THEN "err" ELSE "ok", <<>>, 0)]
\* a file that cannot be opened is reported, and nothing else happens
OpenBad(m) == /\ phase \in {"new", "none"} /\ UNCHANGED <<phase, file, at>>
              /\ ev' = [op |-> "openbad", m |-> m, obs |-> Obs("err", <<>>, 0)]
\* closing makes everything that was written visible to others
Close == /\ phase \notin {"new", "none"} /\ phase' = "none" /\ at' = 0 /\ UNCHANGED file
         /\ ev' = [op |-> "close", obs |-> Obs("ok", file, 0)]

Overlay(f, p, e) == SubSeq(f, 1, p) \o e \o SubSeq(f, p + Len(e) + 1, Len(f))
Put(e) == /\ phase = "w" /\ UNCHANGED phase
          /\ file' = Overlay(file, at, e) /\ at' = at + Len(e)
Write(k, v) == /\ Len(v) = Width(k) /\ Put(Encode(k, v))
               /\ ev' = [op |-> "write", k |-> k, v |-> v, obs |-> Obs("ok", <<>>, at')]
WriteRaw(v) == /\ Put(EncodeRaw(v))
               /\ ev' = [op |-> "writeraw", v |-> v, obs |-> Obs("ok", <<>>, at')]
WriteArr(k, n, v) == /\ Len(v) = n * Width(k) /\ Put(EncodeArr(k, n, v))
                     /\ ev' = [op |-> "writearr", k |-> k, n |-> n, v |-> v, obs |-> Obs("ok", <<>>, at')]
ResetI == /\ phase = "w" /\ at' = 0 /\ UNCHANGED <<phase, file>>
          /\ ev' = [op |-> "reseti", obs |-> Obs("ok", <<>>, 0)]
SeekI(n) == /\ phase = "w" /\ n <= at /\ at' = at - n /\ UNCHANGED <<phase, file>>
            /\ ev' = [op |-> "seeki", n |-> n, obs |-> Obs("ok", <<>>, at')]

CanRead(n) == at + n <= Len(file)
Next_n(n) == SubSeq(file, at + 1, at + n)
\* where the stream is after a read that failed is not specified
Get(e, n, val) ==
  /\ phase = "r" /\ UNCHANGED file
  /\ IF CanRead(n) THEN /\ phase' = "r" /\ at' = at + n
                        /\ ev' = [e EXCEPT !.obs = Obs("ok", val, at')]
                   ELSE /\ phase' = "lost" /\ at' = 0
                        /\ ev' = [e EXCEPT !.obs = Obs("err", <<>>, 0)]
Read(k) == Get([op |-> "read", k |-> k, obs |-> ""], EncWidth(k), Decode(k, Next_n(EncWidth(k))))
ReadRaw(n) == Get([op |-> "readraw", n |-> n, obs |-> ""], RawWidth(n), DecodeRaw(n, Next_n(RawWidth(n))))
ReadArr(k, n) == Get([op |-> "readarr", k |-> k, n |-> n, obs |-> ""], ArrWidth(k, n), DecodeArr(k, n, Next_n(ArrWidth(k, n))))
ResetO == /\ phase \in {"r", "lost"} /\ phase' = "r" /\ at' = 0 /\ UNCHANGED file
          /\ ev' = [op |-> "reseto", obs |-> Obs("ok", <<>>, 0)]
SeekO(n) == /\ phase = "r" /\ at + n >= 0 /\ at + n <= Len(file) /\ at' = at + n /\ UNCHANGED <<phase, file>>
            /\ ev' = [op |-> "seeko", n |-> n, obs |-> Obs("ok", <<>>, at')]

Fill(n) == [1..n -> Vals]
Values(k) == {[i \in 1..Width(k) |-> IF i = 1 THEN x ELSE y] : x, y \in Vals}
Fits(n) == at + n <= MaxSize
Whole == {n \in 0..MaxSize : n % Unit = 0}
Next == \/ OpenW \/ OpenR \/ Close \/ ResetI \/ ResetO \/ OpenBad("w") \/ OpenBad("r")
        \/ \E k \in Kinds : Fits(EncWidth(k)) /\ \E v \in Values(k) : Write(k, v)
        \/ \E n \in Raws : Fits(RawWidth(n)) /\ \E v \in Fill(n) : WriteRaw(v)
        \/ \E k \in Kinds : Read(k)
        \/ \E n \in Raws : ReadRaw(n)
        \/ \E n \in Whole : SeekI(n) \/ SeekO(n) \/ SeekO(-n)
Spec == Init /\ [][Next]_vars

TypeOK == /\ phase \in {"new", "none", "w", "r", "lost"} /\ at \in Nat
          /\ at <= Len(file)
\* reading never changes the file; closing changes nothing
ReadOnly == [][(phase # "w" /\ phase' # "w") => file' = file]_vars
\* what is behind the stream stays as written
Behind == [][phase = "w" /\ phase' = "w" => SubSeq(file', 1, IF at < at' THEN at ELSE at') = SubSeq(file, 1, IF at < at' THEN at ELSE at')]_vars

State == [phase |-> phase, file |-> file, at |-> at]
GraphView == <<phase, file, at>>
Emit == PrintT(ToJson(<<State, ev', State'>>))
=============================================================================
