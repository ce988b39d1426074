------------------------------- MODULE Tiles --------------------------------
(* A board of width w, its tiles row by row in a sequence, 0 being a hole.    *)
(* Places are counted from 0.                                                 *)
EXTENDS Integers, Sequences
On(b, i) == i \in 0..(Len(b) - 1)
Tile(b, i) == b[i + 1]
Beside(w, i, j) == \/ i \div w = j \div w /\ (i = j + 1 \/ j = i + 1)
                   \/ i = j + w \/ j = i + w
Slid(b, i, j) == [b EXCEPT ![i + 1] = b[j + 1], ![j + 1] = b[i + 1]]
Holes(w, b, i) == {j \in 0..(Len(b) - 1) : Tile(b, j) = 0 /\ Beside(w, i, j)}
(* what may come of touching place i                                          *)
Moved(w, b, i) == IF On(b, i) /\ Tile(b, i) # 0 /\ Holes(w, b, i) # {}
                  THEN {Slid(b, i, j) : j \in Holes(w, b, i)} ELSE {b}
=============================================================================
