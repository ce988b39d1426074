------------------------------ MODULE TilesMC -------------------------------
EXTENDS Tiles, FiniteSets, TLC, Json
CONSTANTS W, Cells, HoleCount
Start == [k \in 1..Cells |-> IF k <= Cells - HoleCount THEN k ELSE 0]
VARIABLES b, last
Init == b = Start /\ last = [o |-> "none", i |-> 0]
Touched == (0 - 1)..(Len(Start) + W)
Next == \E i \in Touched : b' \in Moved(W, b, i) /\ last' = [o |-> "move", i |-> i]
Spec == Init /\ [][Next]_<<b, last>>
View == b
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Same == \A x \in {Start[k] : k \in DOMAIN Start} \cup {b[k] : k \in DOMAIN b} : Count(b, x) = Count(Start, x)
(* the tile touched goes to where a hole was, and can go back                 *)
OneStep == [][b' # b => LET i == last'.i IN
                /\ Cardinality({k \in DOMAIN b : b'[k] # b[k]}) = 2
                /\ Tile(b, i) # 0 /\ Tile(b', i) = 0
                /\ \E j \in 0..(Len(b) - 1) : Beside(W, i, j) /\ Tile(b, j) = 0 /\ b \in Moved(W, b', j)]_b
(* which half of all boards can be reached (one hole): the order of the tiles  *)
(* and the way of the hole together never change                              *)
Swaps(s) == Cardinality({<<x, y>> \in (DOMAIN s) \X (DOMAIN s) : x < y /\ s[x] > s[y]})
Hole(s) == CHOOSE k \in DOMAIN s : s[k] = 0
Side(s) == (Swaps(s) + ((Hole(s) - 1) \div W) + ((Hole(s) - 1) % W)) % 2
Half == Count(Start, 0) = 1 => Side(b) = Side(Start)
Edge == PrintT(<<"EDGE", ToJson(b), ToJson(last'), ToJson(b')>>)
=============================================================================
