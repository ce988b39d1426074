----------------------------- MODULE DeltaTrace -----------------------------
EXTENDS Delta, TraceLib

tvars == <<l, x, d, op>>
TraceInit == l = 1 /\ x = << >> /\ d = << >> /\ op = [o |-> "none"]
TReset == IsEvent("reset") /\ x' = E.x /\ d' = [i \in DOMAIN E.x |-> None] /\ E.d = d' /\ UNCHANGED op
TStep ==
  /\ IsEvent("step")
  /\ CASE E.o = "set"   -> SetX(E.y)
       [] E.o = "make"  -> Diff(E.y)
       [] E.o = "all"   -> All(E.y)
       [] E.o = "apply" -> Apply /\ E.changed = Changes(d, x)
       [] E.o = "merge" -> Merge(E.y, E.z)
  /\ E.x = x' /\ E.d = d'
TraceNext == TReset \/ TStep
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
