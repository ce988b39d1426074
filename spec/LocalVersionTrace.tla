------------------------- MODULE LocalVersionTrace -------------------------
EXTENDS LocalVersion, TraceLib
tvars == <<l, lvars>>
TraceInit == l = 1 /\ log = << >> /\ sent = {} /\ pos = << >> /\ out = << >> /\ agreed = << >> /\ shown = << >>
TReset == /\ IsEvent("reset")
          /\ log' = << >> /\ sent' = {}
          /\ pos' = [c \in 1..E.clients |-> 0] /\ out' = [c \in 1..E.clients |-> {}]
          /\ agreed' = [c \in 1..E.clients |-> E.v] /\ shown' = [c \in 1..E.clients |-> E.v]
TLocal == IsEvent("local") /\ Local(E.c, E.u, E.d) /\ E.shown = shown'[E.c]
TCommit == IsEvent("commit") /\ Commit([u |-> E.u, d |-> E.d])
TReplace == IsEvent("replace") /\ Replace(E.d)
TDeliver == IsEvent("deliver") /\ Deliver(E.c) /\ E.shown = shown'[E.c]
TraceNext == TReset \/ TLocal \/ TCommit \/ TReplace \/ TDeliver
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
