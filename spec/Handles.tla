------------------------------- MODULE Handles ------------------------------
(* Handles to values of JavaScript.  Values are numbers: 0 is undefined, the  *)
(* others are things told apart.  A slot is where a handle may live: absent,   *)
(* or present with a value.  A list holds handles in order.  Callbacks are     *)
(* functions of JavaScript that put their argument in a slot.  A promise has   *)
(* stages, each settled once, by whatever settles it first.                   *)
EXTENDS Integers, Sequences
Absent == 0 - 1
Any == 9999     \* what a handle has that was moved onto itself is open
(* ---- slots --------------------------------------------------------------- *)
Put(s, i, v) == [s EXCEPT ![i] = v]
Moved(s, i, j) == IF i = j THEN Put(s, i, Any) ELSE [s EXCEPT ![i] = s[j], ![j] = 0]
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
(* ---- lists --------------------------------------------------------------- *)
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Inserted(q, k, v) == SubSeq(q, 1, k - 1) \o <<v>> \o SubSeq(q, k, Len(q))
(* ---- promises ------------------------------------------------------------ *)
New(n) == [stages |-> n, at |-> 1]
Done(p) == p.at > p.stages
(* settling stage s of it, in that way: where it is then; and is it heard      *)
Heeds(p, s) == p.at = s /\ ~Done(p)
Settled(p, s, how) == IF ~Heeds(p, s) THEN p ELSE [p EXCEPT !.at = IF how = "then" THEN @ + 1 ELSE p.stages + 1]
(* what is done at once by a stage as it starts (plan: ways and values) and    *)
(* what is heard of it                                                        *)
RECURSIVE Starts(_, _, _)
Starts(p, plan, heard) ==
  IF Done(p) \/ plan = << >> THEN [p |-> p, heard |-> heard]
  ELSE Starts(Settled(p, p.at, Head(plan).how), Tail(plan), Append(heard, [s |-> p.at, how |-> Head(plan).how, v |-> Head(plan).v]))
=============================================================================
