--------------------------- MODULE MapStoreTrace ---------------------------
EXTENDS MapStore, TraceLib

tvars == <<l, map, op, hist>>
TraceInit == l = 1 /\ map = << >> /\ op = NoOp /\ hist = << >>

TReset ==
  /\ IsEvent("reset")
  /\ map' = [k \in {E.keys[i] : i \in 1..Len(E.keys)} |-> Unknown]
  /\ UNCHANGED <<op, hist>>
TApply ==
  /\ IsEvent("apply")
  /\ LET o == [kind |-> E.kind, k |-> E.k, v |-> E.v] IN
       /\ E.changed = Changed(map, o)
       /\ map' = Shown(map, o)
       /\ \A k \in DOMAIN map' : E.map[k] = map'[k]
  /\ UNCHANGED <<op, hist>>
TraceNext == TReset \/ TApply
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
