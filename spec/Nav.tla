-------------------------------- MODULE Nav ---------------------------------
(* An application whose route is the page's address.  Addresses are octets as *)
(* the browser has them (percent-encoded); hist is what was visited, at the   *)
(* place in it.  What the address says is [text, route], when it can be told.  *)
EXTENDS Routes, Integers
Percent == 37
HexOf(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 0 - 1
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
(* ------------------------------------------------- percent and its digits -- *)
Encoded(s) == \A i \in DOMAIN s : s[i] = Percent => i + 2 <= Len(s) /\ HexOf(s[i + 1]) >= 0 /\ HexOf(s[i + 2]) >= 0
RECURSIVE Decode(_)
Decode(s) == IF s = << >> THEN << >>
             ELSE IF Head(s) = Percent THEN <<16 * HexOf(s[2]) + HexOf(s[3])>> \o Decode(SubSeq(s, 4, Len(s)))
             ELSE <<Head(s)>> \o Decode(Tail(s))
Free(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95, 126, 33, 39, 40, 41, 42, Slash}
Encode(s) == FlattenSeq([i \in DOMAIN s |-> IF Free(s[i]) THEN <<s[i]>> ELSE <<Percent, Hex(s[i] \div 16), Hex(s[i] % 16)>>])
(* octets that are characters (UTF-8)                                         *)
RECURSIVE Characters(_)
Characters(s) ==
  IF s = << >> THEN TRUE
  ELSE LET n == IF s[1] < 128 THEN 1 ELSE IF s[1] \in 194..223 THEN 2 ELSE IF s[1] \in 224..239 THEN 3
                ELSE IF s[1] \in 240..244 THEN 4 ELSE 0 IN
       n > 0 /\ n <= Len(s) /\ (\A i \in 2..n : s[i] \in 128..191) /\ Characters(SubSeq(s, n + 1, Len(s)))
(* ------------------------------------------------------------ addresses ---- *)
Under(prefix, addr) == Len(addr) >= Len(prefix) /\ SubSeq(addr, 1, Len(prefix)) = prefix
Rest(prefix, addr) == SubSeq(addr, Len(prefix) + 1, Len(addr))
(* it can be told what an address says                                        *)
Telling(prefix, addr) == /\ Under(prefix, addr)
                         /\ LET r == Rest(prefix, addr) IN Encoded(r) /\ Characters(Decode(r))
Said(table, prefix, addr) == LET t == Decode(Rest(prefix, addr)) IN [text |-> t, route |-> Read(table, t)]
(* what is in the store is what the address says; outside the prefix, and     *)
(* where it can not be told, no more than that text and route agree           *)
Agrees(table, prefix, addr, text, route) ==
  IF Telling(prefix, addr) THEN [text |-> text, route |-> route] = Said(table, prefix, addr)
  ELSE /\ route = Read(table, text)
       /\ ~Under(prefix, addr) => route = NotFound
(* texts an address can say: no empty first part, no part "." or ".."         *)
Sayable(t) == /\ t # << >> /\ Head(t) = Slash /\ Characters(t)
              /\ LET ps == Split(Tail(t)) IN /\ (Len(ps) > 1 => ps[1] # << >>)
                                              /\ \A i \in DOMAIN ps : ps[i] \notin {<<46>>, <<46, 46>>}
Says(prefix, addr, t) == Telling(prefix, addr) /\ Decode(Rest(prefix, addr)) = t
(* ------------------------------------------------------------ the browser -- *)
Push(h, addr) == [h EXCEPT !.hist = Append(SubSeq(h.hist, 1, h.at), addr), !.at = h.at + 1]
Moved(h, d) == IF h.at + d \in DOMAIN h.hist THEN [h EXCEPT !.at = h.at + d] ELSE h
Address(h) == h.hist[h.at]
=============================================================================
