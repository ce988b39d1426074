---------------------------- MODULE TilesTrace ------------------------------
EXTENDS Tiles, TraceLib
VARIABLES w, b
tvars == <<l, w, b>>
TraceInit == l = 1 /\ w = 1 /\ b = << >>
(* rest: what the cells behind the board hold                                 *)
TReset == IsEvent("reset") /\ w' = E.w /\ b' = E.b /\ E.rest = << >>
TMove == /\ IsEvent("move") /\ w' = w
         /\ b' = E.b /\ b' \in Moved(w, b, E.i) /\ E.rest = << >>
         /\ E.moved = (b' # b)
(* a move sent to the game in a context: who looks at it hears of it           *)
TSent == /\ IsEvent("sent") /\ w' = w
         /\ b' = E.b /\ b' \in Moved(w, b, E.i) /\ E.rest = << >>
         /\ E.heard = (IF b' # b THEN <<b'>> ELSE << >>)
TraceNext == TReset \/ TMove \/ TSent
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
