------------------------------ MODULE MapStore ------------------------------
(* The map store (include/nbdl/map_store.hpp) as the fold of the message      *)
(* history.  One state variable: what every key shows.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Vals          \* Vals contains "nf" (nbdl::not_found) and entity values

Upstream   == {"up_create", "up_read", "up_update", "up_delete"}
Downstream == {"down_create", "down_read", "down_update", "down_delete"}
Kinds      == Upstream \cup Downstream
NeedsValue == {"up_create", "up_update", "down_create", "down_read", "down_update"}

Unknown == "absent"           \* never requested
Pending == "unresolved"       \* requested, no answer yet

----------------------------------------------------------------------------
(* The meaning of one message, as functions of the shown map.                 *)
IsUnknown(x) == x \in {Unknown, Pending}

Shown(m, op) ==
  CASE op.kind = "up_read"   -> [m EXCEPT ![op.k] = IF @ = Unknown THEN Pending ELSE @]
    [] op.kind \in {"up_create", "up_update", "up_delete"} -> m
    [] op.kind \in {"down_create", "down_update"} -> [m EXCEPT ![op.k] = op.v]
    [] op.kind = "down_read" -> [m EXCEPT ![op.k] = IF IsUnknown(@) THEN op.v ELSE @]
    [] op.kind = "down_delete" -> [m EXCEPT ![op.k] = Unknown]

Changed(m, op) ==
  \/ op.kind \in {"down_create", "down_update", "down_delete"}
  \/ op.kind = "down_read" /\ IsUnknown(m[op.k])

----------------------------------------------------------------------------
VARIABLES map, op, hist       \* op, hist: observation variables hidden by VIEW

NoOp == [kind |-> "none", k |-> "none", v |-> "none"]
Ops == [kind : NeedsValue, k : Keys, v : Vals] \cup
       [kind : Kinds \ NeedsValue, k : Keys, v : {"none"}]

Init == map = [k \in Keys |-> Unknown] /\ op = NoOp
        /\ hist = [k \in Keys |-> Unknown]

(* hist folds, per key, only the downstream messages that were effective:     *)
(* the independent second definition of what must be shown.                   *)
HistNext(o) ==
  hist' = [hist EXCEPT ![o.k] =
             IF o.kind \in {"down_create", "down_update"} THEN o.v
             ELSE IF o.kind = "down_delete" THEN Unknown
             ELSE IF o.kind = "down_read" /\ @ = Unknown THEN o.v
             ELSE @]

Apply(o) == op' = o /\ map' = Shown(map, o) /\ HistNext(o)
Next == \E o \in Ops : Apply(o)
vars == <<map, op, hist>>
Spec == Init /\ [][Next]_vars
View == <<map, hist>>

----------------------------------------------------------------------------
TypeOK == map \in [Keys -> Vals \cup {Unknown, Pending}]
(* what is shown is the last effective downstream message, a placeholder      *)
(* aside                                                                      *)
ShowsLastEffective == \A k \in Keys : map[k] = hist[k] \/ (map[k] = Pending /\ hist[k] = Unknown)
KeysIndependent == [][\A k \in Keys : k # op'.k => map'[k] = map[k]]_vars
UpstreamKeepsValues ==
  [][op'.kind \in Upstream => \A k \in Keys : ~ IsUnknown(map[k]) => map'[k] = map[k]]_vars
ReportsEveryValueChange ==
  [][(\E k \in Keys : map[k] # map'[k] /\ ~ (map[k] = Unknown /\ map'[k] = Pending))
       => Changed(map, op')]_vars
ChangedOnlyDownstream == [][Changed(map, op') => op'.kind \in Downstream]_vars

Edge == PrintT(<<"EDGE", ToJson(map), ToJson(op'), ToJson(map')>>)
=============================================================================
