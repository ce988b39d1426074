------------------------------- MODULE Routes -------------------------------
(* Paths of a web application.  A table is a sequence of routes [name, ms]:   *)
(* ms tells of each member what it holds, << >> any text, or the digits of the *)
(* largest number it has room for.  Texts are sequences of character codes.   *)
(* A route taken is [r |-> its place in the table, vs |-> its values], a       *)
(* number being its digits.                                                   *)
EXTENDS Naturals, Sequences, SequencesExt
Slash == 47
NotFound == [r |-> 0, vs |-> << >>]

(* ------------------------------------------------------------- numbers --- *)
IsDigit(c) == c \in 48..57
RECURSIVE Stripped(_)
Stripped(p) == IF p # << >> /\ Head(p) = 48 THEN Stripped(Tail(p)) ELSE p
RECURSIVE DigitsLess(_, _)
DigitsLess(a, b) == a # << >> /\ (Head(a) < Head(b) \/ (Head(a) = Head(b) /\ DigitsLess(Tail(a), Tail(b))))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~DigitsLess(b, a))
(* a positive number that fits                                                *)
Number(p, max) == (\A i \in DOMAIN p : IsDigit(p[i])) /\ Stripped(p) # << >> /\ AtMost(Stripped(p), max)

(* ------------------------------------------------------------- reading --- *)
RECURSIVE Split(_)
Split(s) == IF \A i \in DOMAIN s : s[i] # Slash THEN <<s>>
            ELSE LET k == CHOOSE k \in DOMAIN s : s[k] = Slash /\ \A j \in 1..(k - 1) : s[j] # Slash IN
                 <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))
(* what is between the slashes; one more slash may be at the end              *)
Parts(s) == LET ps == Split(Tail(s)) IN
            IF Len(ps) > 1 /\ ps[1] # << >> /\ ps[Len(ps)] = << >> THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
Fits(m, p) == IF m = << >> THEN p # << >> ELSE Number(p, m)
Held(m, p) == IF m = << >> THEN p ELSE Stripped(p)
Takes(route, ps) == /\ route.name = ps[1] /\ Len(route.ms) = Len(ps) - 1
                    /\ \A i \in DOMAIN route.ms : Fits(route.ms[i], ps[i + 1])
(* a name is in the table once; an empty part is nowhere else than in "/"     *)
Read(table, s) ==
  IF s = << >> \/ Head(s) # Slash THEN NotFound
  ELSE LET ps == Parts(s) IN
       IF (\E i \in DOMAIN ps : ps[i] = << >>) /\ ps # <<<< >>>> THEN NotFound
       ELSE IF \E r \in DOMAIN table : Takes(table[r], ps)
       THEN LET r == CHOOSE r \in DOMAIN table : Takes(table[r], ps) IN
            [r |-> r, vs |-> [i \in DOMAIN table[r].ms |-> Held(table[r].ms[i], ps[i + 1])]]
       ELSE NotFound

(* ------------------------------------------------------------- writing --- *)
Written(table, x) == <<Slash>> \o table[x.r].name \o FlattenSeq([i \in DOMAIN x.vs |-> <<Slash>> \o x.vs[i]])
(* values that can be told from what is around them                           *)
Proper(table, x) == /\ x.r \in DOMAIN table /\ Len(x.vs) = Len(table[x.r].ms)
                    /\ (table[x.r].name = << >> => x.vs = << >>)
                    /\ \A i \in DOMAIN x.vs : /\ Fits(table[x.r].ms[i], x.vs[i])
                                              /\ \A k \in DOMAIN x.vs[i] : x.vs[i][k] # Slash
                                              /\ Held(table[x.r].ms[i], x.vs[i]) = x.vs[i]
(* a path without what can be left out                                        *)
Plain(s) == Len(s) = 1 \/ s[Len(s)] # Slash
=============================================================================
