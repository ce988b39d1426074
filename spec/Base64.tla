------------------------------ MODULE Base64 -------------------------------
(* What a text in base64 means (declarative), on top of the encoding in Codec *)
EXTENDS Codec

(* texts that are encodings in form; the unused bits of the last digit may be *)
(* anything (RFC 4648, 3.5 leaves it to the reader to refuse those)           *)
Pads(t) == IF Len(t) >= 2 /\ t[Len(t)] = Pad THEN IF t[Len(t) - 1] = Pad THEN 2 ELSE 1 ELSE 0
WellFormed(t) ==
  /\ Len(t) % 4 = 0
  /\ \A i \in 1..(Len(t) - Pads(t)) : Value(t[i]) < 64
(* a well-formed text means these bytes                                       *)
Triple(t, q) ==
  LET v == [k \in 1..4 |-> LET c == t[4 * q - 4 + k] IN IF c = Pad THEN 0 ELSE Value(c)] IN
  << v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4] >>
Meaning(t) == LET n == Len(t) \div 4 IN
  SubSeq(FlattenSeq([q \in 1..n |-> Triple(t, q)]), 1, 3 * n - Pads(t))
Canonical(t) == WellFormed(t) /\ Encode(Meaning(t)) = t

(* what writing and reading may answer; kind: "vector" | "string" resize,     *)
(* otherwise the target has room for exactly `room` bytes                     *)
EncodeOk(b, t) == t = Encode(b)
DecodeOk(t, kind, room, ok, b) ==
  IF ok THEN WellFormed(t) /\ b = Meaning(t) /\ (kind = "fixed" => room = Len(b))
  ELSE ~Canonical(t) \/ (kind = "fixed" /\ room # Len(Meaning(t)))
(* the form of decoding that returns the bytes says "refused" by no bytes     *)
DecodeValueOk(t, b) == IF b = << >> THEN t = << >> \/ ~Canonical(t) ELSE WellFormed(t) /\ b = Meaning(t)
=============================================================================
