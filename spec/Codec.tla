------------------------------- MODULE Codec -------------------------------
(* Byte strings (sequences of 0..255) and the codecs the handshake uses:      *)
(* SHA-1 (FIPS 180) and Base64 (RFC 4648), written down from the standards.   *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

Bytes(n) == [1..n -> 0..255]
Lower(b) == [i \in DOMAIN b |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
(* the part of b from position i on, i may be one past the end                *)
From(b, i) == SubSeq(b, i, Len(b))
StartsWith(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
(* position of the first x in b at or after i, or Len(b)+1                    *)
Find(b, i, x) == LET n == Len(b) + 1 IN
  CHOOSE k \in i..(IF i < n THEN n ELSE i) : (k >= n \/ b[k] = x) /\ \A j \in i..(k - 1) : b[j] # x
RECURSIVE SkipSpaces(_, _)
SkipSpaces(b, i) == IF i <= Len(b) /\ b[i] = 32 THEN SkipSpaces(b, i + 1) ELSE i
(* run-length notation << <<byte, count>>, ... >>                             *)
Unrun(r) == FlattenSeq([i \in DOMAIN r |-> [j \in 1..r[i][2] |-> r[i][1]]])

(* ------------------------------------------------------------- Base64 ---- *)
Digit(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v
            ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
Pad == 61
Value(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
            ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62
            ELSE IF c = 47 THEN 63 ELSE 99
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Quantum(b, i) ==      \* the four digits of the bytes i, i+1, i+2
  LET x == At(b, i) y == At(b, i + 1) z == At(b, i + 2) n == Len(b) - i + 1 IN
  << Digit(x \div 4), Digit((x % 4) * 16 + y \div 16),
     IF n >= 2 THEN Digit((y % 16) * 4 + z \div 64) ELSE Pad,
     IF n >= 3 THEN Digit(z % 64) ELSE Pad >>
Encode(b) == FlattenSeq([q \in 1..((Len(b) + 2) \div 3) |-> Quantum(b, 3 * q - 2)])

(* ------------------------------------------------------------- SHA-1 ----- *)
(* A word is a pair <<high, low>> of 16-bit halves.                           *)
W(h, l) == <<h, l>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Compl(a)  == <<65535 - a[1], 65535 - a[2]>>
AddW(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div 65536) % 65536, l % 65536>>
Rot(a, n) ==          \* rotate left by n < 16
  LET p == 2^n q == 2^(16 - n) IN
  <<((a[1] * p) % 65536) + (a[2] \div q), ((a[2] * p) % 65536) + (a[1] \div q)>>
Rot30(a) == LET s == <<a[2], a[1]>> IN Rot(s, 14)
Padded(m) ==
  LET z == (119 - (Len(m) % 64)) % 64 n == Len(m) * 8 IN
  m \o <<128>> \o [i \in 1..z |-> 0]
    \o <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Schedule(blk) ==
  LET first == [t \in 1..16 |-> <<blk[4*t-3] * 256 + blk[4*t-2], blk[4*t-1] * 256 + blk[4*t]>>]
      step(w, t) == Append(w, Rot(XorW(XorW(w[t-3], w[t-8]), XorW(w[t-14], w[t-16])), 1))
  IN FoldLeft(step, first, [i \in 1..64 |-> i + 16])
F(t, b, c, d) == IF t <= 20 THEN OrW(AndW(b, c), AndW(Compl(b), d))
                 ELSE IF t <= 40 THEN XorW(b, XorW(c, d))
                 ELSE IF t <= 60 THEN OrW(AndW(b, c), OrW(AndW(b, d), AndW(c, d)))
                 ELSE XorW(b, XorW(c, d))
K(t) == IF t <= 20 THEN W(23170, 31129) ELSE IF t <= 40 THEN W(28377, 60321)
        ELSE IF t <= 60 THEN W(36635, 48348) ELSE W(51810, 49622)
Rounds(h, w) ==
  LET step(s, t) == << AddW(AddW(AddW(Rot(s[1], 5), F(t, s[2], s[3], s[4])), AddW(s[5], K(t))), w[t]),
                       s[1], Rot30(s[2]), s[3], s[4] >>
  IN FoldLeft(step, h, [i \in 1..80 |-> i])
Sha1(m) ==
  LET p == Padded(m)
      init == << W(26437, 8961), W(61389, 43913), W(39098, 56574), W(4146, 21622), W(50130, 57840) >>
      block(h, i) == LET r == Rounds(h, Schedule(SubSeq(p, 64 * i - 63, 64 * i)))
                     IN [j \in 1..5 |-> AddW(h[j], r[j])]
      h == FoldLeft(block, init, [i \in 1..(Len(p) \div 64) |-> i])
  IN FlattenSeq([j \in 1..5 |-> <<h[j][1] \div 256, h[j][1] % 256, h[j][2] \div 256, h[j][2] % 256>>])

=============================================================================
