------------------------------ MODULE NavTrace ------------------------------
EXTENDS Nav, TraceLib
VARIABLES table, prefix, h, up, store
tvars == <<l, table, prefix, h, up, store>>
None == [text |-> << >>, route |-> NotFound]
TraceInit == l = 1 /\ table = << >> /\ prefix = << >> /\ h = [hist |-> << >>, at |-> 0] /\ up = FALSE /\ store = None
TReset == /\ IsEvent("reset") /\ table' = E.table /\ prefix' = E.prefix
          /\ h' = [hist |-> <<<<Slash>>>>, at |-> 1] /\ up' = FALSE /\ store' = None
(* the page is where it should be, the store says what the address says, who  *)
(* observes was told of what changed, and nothing was complained about        *)
Changed == (IF E.route # store.route THEN {"route"} ELSE {}) \cup (IF E.text # store.text THEN {"text"} ELSE {})
Settled == /\ E.addr = Address(h') /\ E.length = Len(h'.hist) /\ E.errors = << >>
           /\ E.up = up' /\ store' = [text |-> E.text, route |-> E.route]
           /\ up' => /\ Agrees(table, prefix, E.addr, E.text, E.route)
                     /\ Changed \subseteq Range(E.told) /\ Range(E.told) \subseteq {"route", "text"}
           /\ UNCHANGED <<table, prefix>>
TVisit == IsEvent("visit") /\ ~up /\ h' = Push(h, E.s) /\ up' = up /\ Settled
TStart == IsEvent("start") /\ up' = TRUE /\ h' = h /\ Settled
TStop == IsEvent("stop") /\ up' = FALSE /\ h' = h /\ Settled
TBack == IsEvent("back") /\ h' = Moved(h, 0 - 1) /\ up' = up /\ Settled
TForward == IsEvent("forward") /\ h' = Moved(h, 1) /\ up' = up /\ Settled
(* a route is set: the address says it, and can be left again                 *)
TGo == /\ IsEvent("go") /\ up /\ up' = up
       /\ IF E.x.r = 0 THEN h' = h
          ELSE /\ h' = Push(h, E.addr) /\ Says(prefix, E.addr, Written(table, E.x))
               /\ (Proper(table, E.x) => E.route = E.x)
       /\ Settled
TText == IsEvent("text") /\ up /\ up' = up /\ h' = Push(h, E.addr) /\ Says(prefix, E.addr, E.s) /\ Settled
TraceNext == TReset \/ TVisit \/ TStart \/ TStop \/ TBack \/ TForward \/ TGo \/ TText
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
