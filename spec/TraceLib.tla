------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded execution (ndjson, path in the environment variable     *)
(* TRACE).  l is the next line to explain; a trace is accepted when every     *)
(* line was explained by some behaviour.                                      *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
E == Trace[l]
IsEvent(name) == l <= TraceLen /\ Trace[l].ev = name /\ l' = l + 1

Range(f) == {f[i] : i \in DOMAIN f}

(* longest explained prefix: one state per line plus the initial one          *)
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  IF n = TraceLen THEN PrintT(<<"ACCEPTED", n>>)
                  ELSE PrintT(<<"REJECTED", n, TraceLen>>)

(* the same for specifications with steps that explain no line: the farthest  *)
(* line reached (CONSTRAINT TraceFar, and TraceFarInit in the initial state)  *)
TraceFarInit == TLCSet(7, 1)
TraceFar == IF l > TLCGet(7) THEN TLCSet(7, l) ELSE TRUE
TraceFarAccepted ==
  LET n == TLCGet(7) - 1 IN
  IF n = TraceLen THEN PrintT(<<"ACCEPTED", n>>)
                  ELSE PrintT(<<"REJECTED", n, TraceLen>>)
=============================================================================
