------------------------------- MODULE Socket -------------------------------
(* Endpoints over a browser's WebSockets.  An endpoint is what its user sees: *)
(* its kind of payload, how its handlers react, the phase of its connection,  *)
(* how many messages it was told of, and whether it still exists.             *)
EXTENDS Naturals, Sequences
Phases == {"connecting", "open", "closing", "closed"}
New(kind, react) == [kind |-> kind, react |-> react, phase |-> "connecting", told |-> 0, live |-> TRUE]
State(e) == CASE e.phase = "connecting" -> 0 [] e.phase = "open" -> 1 [] e.phase = "closing" -> 2 [] OTHER -> 3
(* a frame [t, b, ok, v]: text or binary, its octets; when it is a text of     *)
(* JSON, ok, and v is its value.  A payload of bytes is the octets of either.  *)
Speaks(kind, f) == kind = "bytes" \/ (f.t = "text" /\ f.ok)
Payload(kind, f) == IF kind = "bytes" THEN f.b ELSE f.v
Frame(kind, p) == [t |-> IF kind = "bytes" THEN "binary" ELSE "text", b |-> p]
(* what becomes of an endpoint: it, what its handlers heard, what was sent     *)
Quiet(e) == [e |-> e, heard |-> << >>, sent |-> << >>]
Closing(e) == [e EXCEPT !.phase = IF @ = "closed" THEN @ ELSE "closing"]
Dropped(e) == [Closing(e) EXCEPT !.live = FALSE]
Then(e, what) == CASE what = "close" -> Closing(e) [] what = "drop" -> Dropped(e) [] OTHER -> e
Frames(e, ps) == IF e.phase = "open" THEN [i \in DOMAIN ps |-> Frame(e.kind, ps[i])] ELSE << >>
(* react: ready [say, then], message [echo, at, then], close [say, then]: what  *)
(* is sent, and what is done then; of messages, after the at-th                *)
Opened(e) ==
  IF e.phase # "connecting" THEN Quiet(e)
  ELSE LET o == [e EXCEPT !.phase = "open"] IN
       IF ~e.live THEN Quiet(o)
       ELSE [e |-> Then(o, e.react.ready.then), heard |-> <<[n |-> "ready", b |-> << >>]>>, sent |-> Frames(o, e.react.ready.say)]
Told(e, f) ==
  IF e.phase # "open" \/ ~e.live \/ ~Speaks(e.kind, f) THEN Quiet(e)
  ELSE LET o == [e EXCEPT !.told = @ + 1]  p == Payload(e.kind, f)  m == e.react.message IN
       [e |-> IF o.told = m.at THEN Then(o, m.then) ELSE o, heard |-> <<[n |-> "message", b |-> p]>>,
        sent |-> Frames(o, [i \in 1..m.echo |-> p])]
Gone(e) ==
  IF e.phase = "closed" THEN Quiet(e)
  ELSE LET o == [e EXCEPT !.phase = "closed"] IN
       IF ~e.live THEN Quiet(o) ELSE [e |-> Then(o, e.react.close.then), heard |-> <<[n |-> "close", b |-> << >>]>>, sent |-> << >>]
Sent(e, ps) == [e |-> e, heard |-> << >>, sent |-> Frames(e, ps)]
=============================================================================
