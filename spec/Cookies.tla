------------------------------ MODULE Cookies -------------------------------
(* The session cookie in a list of cookies: pairs separated by semicolons,    *)
(* with any white space before each.  Texts are sequences of character codes. *)
EXTENDS Naturals, Sequences
Semicolon == 59
Blank(c) == c = 32 \/ c \in 9..13
Name == <<78, 66, 68, 76, 95, 83, 69, 83, 83, 61>>         \* NBDL_SESS=
Starts(p) == Len(p) >= Len(Name) /\ SubSeq(p, 1, Len(Name)) = Name
RECURSIVE Pairs(_)
Pairs(s) == IF \A i \in DOMAIN s : s[i] # Semicolon THEN <<s>>
            ELSE LET k == CHOOSE k \in DOMAIN s : s[k] = Semicolon /\ \A j \in 1..(k - 1) : s[j] # Semicolon IN
                 <<SubSeq(s, 1, k - 1)>> \o Pairs(SubSeq(s, k + 1, Len(s)))
RECURSIVE Bare(_)
Bare(p) == IF p # << >> /\ Blank(Head(p)) THEN Bare(Tail(p)) ELSE p
(* the value of the first such pair, or nothing                               *)
Session(s) == LET ps == Pairs(s)
                  mine == {i \in DOMAIN ps : Starts(Bare(ps[i]))} IN
              IF mine = {} THEN << >>
              ELSE LET p == Bare(ps[CHOOSE i \in mine : \A j \in mine : i <= j]) IN SubSeq(p, Len(Name) + 1, Len(p))
=============================================================================
