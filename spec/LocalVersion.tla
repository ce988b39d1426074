---------------------------- MODULE LocalVersion ----------------------------
(* Optimistic editing (include/nbdl/local_version.hpp): clients edit a record  *)
(* locally at once; the root producer puts edits (and full replacements) into  *)
(* one order, which every client receives at its own pace.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

None == "-"
Over(d, x) == [i \in DOMAIN x |-> IF d[i] = None THEN x[i] ELSE d[i]]

VARIABLES log,     \* the confirmed order: [t: "delta"|"full", u, d]
          sent,    \* edits not yet confirmed: {[u, d]}
          pos,     \* client -> how much of the log it has received
          out,     \* client -> its own edits that are not confirmed to it yet
          agreed,  \* client -> base value with the confirmed deltas applied
          shown    \* client -> what it shows
lvars == <<log, sent, pos, out, agreed, shown>>

Clients == DOMAIN pos

Local(c, u, d) ==
  /\ sent' = sent \cup {[u |-> u, d |-> d]}
  /\ out' = [out EXCEPT ![c] = @ \cup {u}]
  /\ shown' = [shown EXCEPT ![c] = Over(d, @)]
  /\ UNCHANGED <<log, pos, agreed>>

Commit(e) ==
  /\ e \in sent
  /\ sent' = sent \ {e}
  /\ log' = Append(log, [t |-> "delta", u |-> e.u, d |-> e.d])
  /\ UNCHANGED <<pos, out, agreed, shown>>

Replace(v) ==
  /\ log' = Append(log, [t |-> "full", u |-> "", d |-> v])
  /\ UNCHANGED <<sent, pos, out, agreed, shown>>

Deliver(c) ==
  /\ pos[c] < Len(log)
  /\ LET e == log[pos[c] + 1]
         own == e.u \in out[c]
         out2 == out[c] \ {e.u}
         agr2 == Over(e.d, agreed[c])
     IN IF e.t = "full"
          THEN /\ agreed' = [agreed EXCEPT ![c] = e.d]
               /\ shown' = [shown EXCEPT ![c] = e.d]
               /\ UNCHANGED out
          ELSE /\ agreed' = [agreed EXCEPT ![c] = agr2]
               /\ out' = [out EXCEPT ![c] = out2]
               /\ shown' = [shown EXCEPT ![c] =
                     IF ~ own THEN Over(e.d, @) ELSE IF out2 = {} THEN agr2 ELSE @]
  /\ pos' = [pos EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<log, sent>>
=============================================================================
