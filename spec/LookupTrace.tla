---------------------------- MODULE LookupTrace ----------------------------
EXTENDS Lookup, TraceLib
VARIABLES t, es
TraceInit == l = 1 /\ t = None("-") /\ es = << >>
Shown == E.now = t' /\ E.elems = es'
TReset == IsEvent("reset") /\ t' = E.t /\ es' = E.es /\ Shown
TLook == IsEvent("look") /\ UNCHANGED <<t, es>>
           /\ (Claimed(t, E.p) => E.got = <<Look(t, E.p)>>)
TPut == IsEvent("put") /\ UNCHANGED es
          /\ (IF Claimed(t, E.p) THEN t' = Put(t, E.p, E.v) /\ E.hit = (Look(t, E.p).k = E.v.k) ELSE t' = E.now)
          /\ Shown
TAct == IsEvent("act") /\ t' = Act(t, E.ks, E.v) /\ UNCHANGED es /\ Shown
TWalk == IsEvent("walk") /\ UNCHANGED <<t, es>> /\ (WalkClaimed(t, es, E.p) => E.got = Walk(t, es, E.p))
TActAt == IsEvent("actat") /\ es' = [es EXCEPT ![E.i] = Act(@, << >>, E.v)] /\ UNCHANGED t /\ Shown
TActBase == IsEvent("actbase") /\ t' = Act(t, << >>, E.v) /\ UNCHANGED es /\ Shown
TraceNext == TReset \/ TLook \/ TPut \/ TAct \/ TWalk \/ TActAt \/ TActBase
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t, es>>
=============================================================================
