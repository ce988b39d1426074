----------------------------- MODULE Base64MC ------------------------------
(* A reader that takes one character at a time, over every text of a small    *)
(* alphabet, and every byte string over a few bytes.                          *)
EXTENDS Base64, Json
CONSTANTS MaxText, MaxBytes, Cases
Chars == {65, 66, 47, 103, 61, 45}        \* A B / g = -
Octets == {0, 1, 127, 128, 255}
VARIABLES text, acc, bits, out, st, raw
vars == <<text, acc, bits, out, st, raw>>
Init == text = << >> /\ acc = 0 /\ bits = 0 /\ out = << >> /\ st = "ok" /\ raw = << >>
(* st: ok | pad1 (one padding seen, one more due) | end (padded) | bad        *)
Digit6(v) ==
  LET a == acc * 64 + v n == bits + 6 IN
  IF n >= 8 THEN /\ out' = Append(out, (a \div 2^(n - 8)) % 256) /\ acc' = a % 2^(n - 8) /\ bits' = n - 8
            ELSE /\ acc' = a /\ bits' = n /\ out' = out
Read(c) ==
  /\ raw = << >> /\ Len(text) < MaxText
  /\ text' = Append(text, c) /\ raw' = raw
  /\ IF st = "ok" /\ Value(c) < 64 THEN Digit6(Value(c)) /\ st' = "ok"
     ELSE /\ UNCHANGED <<acc, bits, out>>
          /\ st' = IF c # Pad THEN "bad"
                   ELSE IF st = "ok" THEN (CASE Len(text) % 4 = 2 -> "pad1" [] Len(text) % 4 = 3 -> "end" [] OTHER -> "bad")
                   ELSE IF st = "pad1" THEN "end" ELSE "bad"
Write(x) == text = << >> /\ Len(raw) < MaxBytes /\ raw' = Append(raw, x) /\ UNCHANGED <<text, acc, bits, out, st>>
Next == (\E c \in Chars : Read(c)) \/ (\E x \in Octets : Write(x))
Spec == Init /\ [][Next]_vars
Done == st = "end" \/ (st = "ok" /\ Len(text) % 4 = 0)
Agree == /\ Done = WellFormed(text)
         /\ Done => out = Meaning(text)
         /\ Done => (Canonical(text) = (acc = 0))
RoundTrip == LET t == Encode(raw) IN
  /\ Canonical(t) /\ Meaning(t) = raw
  /\ Len(t) = 4 * ((Len(raw) + 2) \div 3)
  /\ \A i \in DOMAIN t : Value(t[i]) < 64 \/ (t[i] = Pad /\ i > Len(t) - 2)
Case == Cases => PrintT(<<"CASE", ToJson([t |-> text, b |-> raw])>>)
=============================================================================
