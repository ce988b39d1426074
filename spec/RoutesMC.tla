------------------------------ MODULE RoutesMC ------------------------------
(* Every path over a few characters, read one character at a time.            *)
EXTENDS Routes, TLC, Json
CONSTANTS MaxText, Cases
Table == << [name |-> << >>, ms |-> << >>], [name |-> <<97>>, ms |-> <<<<50, 53, 53>>>>],
            [name |-> <<98>>, ms |-> <<<< >>>>], [name |-> <<97, 98>>, ms |-> <<<<50, 53, 53>>, << >>>>],
            [name |-> <<50>>, ms |-> << >>] >>
Chars == {47, 97, 98, 48, 50, 53}         \* / a b 0 2 5
VARIABLES text, parts, open
(* parts: what was between the slashes so far; open: the part being read      *)
Init == text = << >> /\ parts = << >> /\ open = << >>
Next == /\ Len(text) < MaxText
        /\ \E c \in Chars :
             /\ text' = Append(text, c)
             /\ IF c = Slash THEN IF text = << >> THEN parts' = parts /\ open' = << >>
                                  ELSE parts' = Append(parts, open) /\ open' = << >>
                ELSE parts' = parts /\ open' = Append(open, c)
Spec == Init /\ [][Next]_<<text, parts, open>>
All == IF open = << >> /\ parts # << >> THEN parts ELSE Append(parts, open)
Candidate(r) == /\ Table[r].name = All[1] /\ Len(All) = Len(Table[r].ms) + 1
                /\ \A i \in 2..Len(All) : Fits(Table[r].ms[i - 1], All[i])
Agree == LET x == Read(Table, text) IN
  IF text # << >> /\ text[1] = Slash /\ (Len(All) > 1 => \A i \in DOMAIN All : All[i] # << >>) /\ (text = <<Slash>> \/ All[1] # << >>)
  THEN IF \E r \in DOMAIN Table : Candidate(r) THEN Candidate(x.r) ELSE x = NotFound
  ELSE x = NotFound
(* a path leads to the route that is written like it, and to no other         *)
RoundTrip == LET x == Read(Table, text) IN
  x # NotFound => /\ Proper(Table, x) /\ Read(Table, Written(Table, x)) = x
                  /\ (Plain(text) /\ \A i \in DOMAIN text : text[i] # 48) => Written(Table, x) = text
Case == Cases => PrintT(<<"CASE", ToJson(text)>>)
=============================================================================
