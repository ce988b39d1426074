--------------------------- MODULE LocalVersionMC ---------------------------
EXTENDS LocalVersion
CONSTANTS C, N, Deltas, Fulls, MaxLocal, MaxLog, Edges
VARIABLES n, op
vars == <<lvars, n, op>>
Zero == [i \in 1..N |-> "0"]
Init == /\ log = << >> /\ sent = {} /\ n = 0 /\ op = [o |-> "none"]
        /\ pos = [c \in 1..C |-> 0] /\ out = [c \in 1..C |-> {}]
        /\ agreed = [c \in 1..C |-> Zero] /\ shown = [c \in 1..C |-> Zero]
DLocal(c, d) == n < MaxLocal /\ n' = n + 1 /\ LET u == "u" \o ToString(n) IN
                  Local(c, u, d) /\ op' = [o |-> "local", c |-> c, u |-> u, d |-> d]
DCommit(e) == Len(log) < MaxLog /\ Commit(e) /\ n' = n /\ op' = [o |-> "commit", u |-> e.u, d |-> e.d]
DReplace(v) == Len(log) < MaxLog /\ Replace(v) /\ n' = n /\ op' = [o |-> "replace", d |-> v]
DDeliver(c) == Deliver(c) /\ n' = n /\ op' = [o |-> "deliver", c |-> c]
Next == \/ \E c \in 1..C : (\E d \in Deltas : DLocal(c, d)) \/ DDeliver(c)
        \/ \E e \in sent : DCommit(e)
        \/ \E v \in Fulls : DReplace(v)
Spec == Init /\ [][Next]_vars
View == <<lvars, n>>

\* configurations cannot write tuples: the deltas and replacements explored
D3 == {<<"1", "-">>, <<"-", "2">>, <<"2", "1">>}
D2 == {<<"1", "-">>, <<"2", "2">>}
F1 == {<<"7", "7">>}

RECURSIVE Fold(_, _, _)
Fold(s, k, x) == IF k = 0 THEN x
                 ELSE LET y == Fold(s, k - 1, x) IN IF s[k].t = "full" THEN s[k].d ELSE Over(s[k].d, y)
AgreedIsFold == \A c \in 1..C : agreed[c] = Fold(log, pos[c], Zero)
QuietShowsAgreed == \A c \in 1..C : out[c] = {} => shown[c] = Fold(log, pos[c], Zero)
Converged == \A c, e \in 1..C : pos[c] = pos[e] /\ out[c] = {} /\ out[e] = {} => shown[c] = shown[e]
NoFlicker == [][\A c \in 1..C : pos'[c] > pos[c] /\ log[pos'[c]].t = "delta" /\ log[pos'[c]].u \in out[c]
                  /\ out'[c] # {} => shown'[c] = shown[c]]_vars
ForeignAtOnce == [][\A c \in 1..C : pos'[c] > pos[c] /\ log[pos'[c]].u \notin out[c] =>
                     \A i \in 1..N : log[pos'[c]].d[i] # None => shown'[c][i] = log[pos'[c]].d[i]]_vars
Edge == Edges => PrintT(<<"EDGE", ToJson(<<log, sent, pos, n, shown, out>>), ToJson(op'), ToJson(<<log', sent', pos', n', shown', out'>>)>>)
=============================================================================
