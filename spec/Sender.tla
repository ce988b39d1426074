------------------------------- MODULE Sender -------------------------------
(* One sender of websocket messages with a bound on the size of its frames:   *)
(* what goes out for every message, and what is said of it.                   *)
(* Contents are runs <<byte, count>>, neighbours differing in their byte.     *)
EXTENDS Naturals, Sequences
VARIABLES max,      \* no frame is larger
          cur,      \* the message being sent: [op, p, done, n, over]; << >>: none
          broken    \* the connection is gone
svars == <<max, cur, broken>>

Join(x, y) ==
  IF x = << >> THEN y ELSE IF y = << >> THEN x ELSE
  IF x[Len(x)][1] = y[1][1]
  THEN SubSeq(x, 1, Len(x) - 1) \o << <<y[1][1], x[Len(x)][2] + y[1][2]>> >> \o Tail(y)
  ELSE x \o y
RECURSIVE Size(_)
Size(p) == IF p = << >> THEN 0 ELSE p[1][2] + Size(Tail(p))
(* of the three ways to write a length, the shortest                          *)
Form(n) == IF n < 126 THEN 7 ELSE IF n < 65536 THEN 16 ELSE 64
IsControl(op) == op >= 8

Fresh(m) == max' = m /\ cur' = << >> /\ broken' = FALSE
Send(op, p) ==
  /\ cur = << >>
  /\ cur' = <<[op |-> op, p |-> p, done |-> << >>, n |-> 0, over |-> FALSE]>>
  /\ UNCHANGED <<max, broken>>
Frame(op, fin, plain, form, p) ==
  /\ cur # << >> /\ ~ cur[1].over
  /\ plain                                              \* no reserved bit
  /\ op = IF cur[1].n = 0 THEN cur[1].op ELSE 0
  /\ form = Form(Size(p)) /\ Size(p) <= max
  /\ IsControl(cur[1].op) => fin
  /\ LET all == Join(cur[1].done, p) IN
     /\ fin => all = cur[1].p
     /\ cur' = <<[cur[1] EXCEPT !.done = all, !.n = @ + 1, !.over = fin]>>
  /\ UNCHANGED <<max, broken>>
Sent == cur # << >> /\ (cur[1].over \/ broken) /\ cur' = << >> /\ UNCHANGED <<max, broken>>
Failed == cur # << >> /\ broken /\ cur' = << >> /\ UNCHANGED <<max, broken>>
Break == broken' = TRUE /\ UNCHANGED <<max, cur>>
Settled == cur = << >> /\ UNCHANGED svars
=============================================================================
