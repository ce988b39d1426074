---------------------------- MODULE MessageTrace ---------------------------
EXTENDS Message, TraceLib
VARIABLES m
TraceInit == l = 1 /\ m = << >>
TReset == IsEvent("reset") /\ m' = << >>
(* made of the given parts, and then read                                     *)
TMade == IsEvent("made") /\ m' = E.m /\ WellFormed(E.m) /\ E.shown = Shown(E.m)
(* made into its answer, and read; the message itself says what it said       *)
TConvert ==
  /\ IsEvent("convert") /\ CanConvert(m, E.c) /\ UNCHANGED m
  /\ E.shown = Shown(Convert(m, E.c)) /\ E.still = Shown(m)
TraceNext == TReset \/ TMade \/ TConvert
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
=============================================================================
