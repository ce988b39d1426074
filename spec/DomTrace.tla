------------------------------ MODULE DomTrace ------------------------------
EXTENDS Dom, TraceLib
VARIABLES t, view, there, marks
(* the page as recorded                                                        *)
RECURSIVE Shown(_)
Shown(x) == [tag |-> x.tag, text |-> x.text, attrs |-> Range(x.attrs), cls |-> Range(x.cls), hidden |-> x.hidden,
             kids |-> [i \in DOMAIN x.kids |-> Shown(x.kids[i])]]
Page == [i \in DOMAIN E.shown |-> Shown(E.shown[i])]
PageOf(x, v) == See(Render(x, v)).kids
(* marks: the elements there have been, an update keeps them                   *)
Keeps(x, v, ms) == LET r == Render(x, v).kids IN
                   marks' = ms \cup UNION {Marks(r[i], E.shown[i]) : i \in DOMAIN r} /\ Steady(marks')
Clean == E.threw = "" /\ E.errors = << >>
TraceInit == l = 1 /\ t = None("-") /\ view = None("-") /\ there = FALSE /\ marks = {}
TReset == IsEvent("reset") /\ t' = E.t /\ view' = E.view /\ there' = TRUE /\ Clean /\ Page = PageOf(t', view') /\ Keeps(t', view', {})
TSet == IsEvent("set") /\ t' = E.t /\ UNCHANGED <<view, there>> /\ Clean /\ Page = PageOf(t', view) /\ Keeps(t', view, marks)
TFire == /\ IsEvent("fire") /\ UNCHANGED <<view, there>> /\ Clean
         /\ LET calls == IF there THEN Fired(t, view, E.at, E.type) ELSE << >>
                sent == SentBy(calls) IN
            /\ E.got = [i \in DOMAIN calls |-> <<calls[i].id, calls[i].ps>>]
            /\ E.prevented = (E.type = "submit" /\ there /\ Hears(Render(t, view), E.at, "submit") # << >>)
            /\ t' = IF sent = 0 THEN t ELSE E.next[sent]
            /\ Page = PageOf(t', view) /\ Keeps(t', view, marks)
(* a renderer that is gone leaves the page as it is                            *)
TGone == IsEvent("gone") /\ there' = FALSE /\ UNCHANGED <<t, view>> /\ Clean /\ Page = PageOf(t, view) /\ Keeps(t, view, marks)
TraceNext == TReset \/ TSet \/ TFire \/ TGone
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t, view, there, marks>>
=============================================================================
