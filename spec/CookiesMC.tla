----------------------------- MODULE CookiesMC ------------------------------
(* Every list made of a few pieces, read one piece at a time.                 *)
EXTENDS Cookies, TLC, Json
CONSTANTS MaxPieces, Cases
Pieces == {Name, SubSeq(Name, 1, 9), <<61>>, <<59>>, <<32>>, <<97>>}
VARIABLES text, n, fresh, mine, found
(* fresh: nothing but blanks since the last semicolon; mine: the pair is the   *)
(* session's, and its value is being read; found: the value, << >> or one      *)
vars == <<text, n, fresh, mine, found>>
Init == text = << >> /\ n = 0 /\ fresh = TRUE /\ mine = "no" /\ found = << >>
(* mine: no | now | over (one has been read) | maybe (the name without its =)  *)
Take(p) ==
  /\ n < MaxPieces /\ n' = n + 1 /\ text' = text \o p
  /\ IF mine = "now" /\ p # <<59>> THEN found' = found \o p /\ UNCHANGED <<fresh, mine>>
     ELSE IF p = <<59>> THEN fresh' = TRUE /\ found' = found /\ mine' = (IF mine \in {"now", "over"} THEN "over" ELSE "no")
     ELSE /\ found' = found
          /\ fresh' = (fresh /\ p = <<32>>)
          /\ mine' = IF mine = "over" THEN "over"
                     ELSE IF (fresh /\ p = Name) \/ (mine = "maybe" /\ p = <<61>>) THEN "now"
                     ELSE IF fresh /\ p = SubSeq(Name, 1, 9) THEN "maybe" ELSE "no"
Next == \E p \in Pieces : Take(p)
Spec == Init /\ [][Next]_vars
Agree == Session(text) = found
(* what comes before or after in the list does not matter                     *)
Elsewhere == Session(<<97, 59>> \o text) = found /\ Session(text \o <<59>> \o Name) = found
Case == Cases => PrintT(<<"CASE", ToJson(text)>>)
=============================================================================
