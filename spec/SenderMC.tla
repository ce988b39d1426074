------------------------------ MODULE SenderMC ------------------------------
(* A sender that cuts a message into frames as large as they may be, and one  *)
(* that cuts it anywhere; both are within the rules, and the receiver that    *)
(* puts frames together has the messages.                                     *)
EXTENDS Sender, TLC, Json
CONSTANTS Maxes, Sizes, Cases
VARIABLES given, got, part
vars == <<svars, given, got, part>>
Take(p, n) == IF n = 0 THEN << >> ELSE <<<<97, n>>>>
Init == max \in Maxes /\ cur = << >> /\ broken = FALSE /\ given = << >> /\ got = << >> /\ part = << >>
Begin == /\ Len(given) < 2
         /\ \E op \in {1, 2, 8, 9, 10}, n \in Sizes :
              /\ IsControl(op) => n <= 125 /\ n <= max
              /\ Send(op, Take(<< >>, n)) /\ given' = Append(given, <<op, n>>)
         /\ UNCHANGED <<got, part>>
Cut(n) == {k \in {n, max, n - 1, 1} : k >= 0 /\ k <= max /\ k <= n}
Emit == /\ cur # << >> /\ ~ cur[1].over /\ cur[1].n < 8
        /\ LET left == Size(cur[1].p) - Size(cur[1].done) IN
           \E k \in Cut(left) : \E fin \in {k = left} :
             /\ left > 0 => k > 0
             /\ Frame(IF cur[1].n = 0 THEN cur[1].op ELSE 0, fin, TRUE, Form(k), Take(<< >>, k))
             /\ IF fin THEN got' = Append(got, <<cur[1].op, Size(part) + k>>) /\ part' = << >>
                       ELSE part' = Join(part, Take(<< >>, k)) /\ got' = got
        /\ UNCHANGED given
Say == (Sent \/ Failed) /\ UNCHANGED <<given, got, part>>
Next == Begin \/ Emit \/ Say
Spec == Init /\ [][Next]_vars
(* whatever was announced as sent has arrived, once and in order              *)
Arrived == (cur = << >> => got = given) /\ (cur # << >> => Len(given) - Len(got) \in {0, 1})
Whole == \A i \in DOMAIN got : got[i] = given[i]
NeverLarger == cur # << >> => Size(cur[1].done) <= Size(cur[1].p)
Case == (Cases /\ Len(given) = 2 /\ cur # << >> /\ cur[1].n = 0) => PrintT(<<"CASE", ToJson([max |-> max, given |-> given])>>)
=============================================================================
