------------------------------- MODULE Delta -------------------------------
(* Deltas (include/nbdl/delta.hpp) of records with any number of members.      *)
(* A record is a sequence of values, a delta a sequence of values and None.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

None == "-"

Make(x, y) == [i \in DOMAIN x |-> IF x[i] = y[i] THEN None ELSE x[i]]
MakeAll(x) == x
ApplyD(d, x) == [i \in DOMAIN x |-> IF d[i] = None THEN x[i] ELSE d[i]]
Changes(d, x) == \E i \in DOMAIN x : d[i] # None /\ d[i] # x[i]
Over(d, e) == [i \in DOMAIN e |-> IF d[i] = None THEN e[i] ELSE d[i]]
Mentions(d) == {i \in DOMAIN d : d[i] # None}

----------------------------------------------------------------------------
(* A register machine over one record x and one delta d.                       *)
CONSTANTS N, Vals
VARIABLES x, d, op
vars == <<x, d, op>>
Rec == [1..N -> Vals]
Del == [1..N -> Vals \cup {None}]

SetX(y)   == x' = y /\ d' = d /\ op' = [o |-> "set", y |-> y]
Diff(y)   == d' = Make(y, x) /\ x' = x /\ op' = [o |-> "make", y |-> y]
All(y)    == d' = MakeAll(y) /\ x' = x /\ op' = [o |-> "all", y |-> y]
Apply     == x' = ApplyD(d, x) /\ d' = d /\ op' = [o |-> "apply", y |-> x]
\* make the difference of y and z and apply it to the delta d
Merge(y, z) == d' = Over(Make(y, z), d) /\ x' = x /\ op' = [o |-> "merge", y |-> y, z |-> z]

Init == x = [i \in 1..N |-> "0"] /\ d = [i \in 1..N |-> None] /\ op = [o |-> "none"]
Next == Apply \/ \E y \in Rec : SetX(y) \/ Diff(y) \/ All(y) \/ \E z \in Rec : Merge(y, z)
Spec == Init /\ [][Next]_vars
View == <<x, d>>
Edge == PrintT(<<"EDGE", ToJson(<<x, d>>), ToJson(op'), ToJson(<<x', d'>>)>>)

----------------------------------------------------------------------------
DiffGivesFirst == \A y \in Rec : ApplyD(Make(y, x), x) = y
DiffIsMinimal  == \A y \in Rec : Mentions(Make(y, x)) = {i \in 1..N : y[i] # x[i]}
OnlyMentioned  == \A i \in 1..N : ApplyD(d, x)[i] # x[i] => i \in Mentions(d)
Idempotent     == ~ Changes(d, ApplyD(d, x))
ReportsChange  == Changes(d, x) <=> ApplyD(d, x) # x
MergeIsSequence == \A e \in Del : ApplyD(Over(e, d), x) = ApplyD(e, ApplyD(d, x))
=============================================================================
