------------------------------- MODULE Keyed -------------------------------
(* Values as keys.  A value is a term [k, s, c]: its kind, its text, and the   *)
(* values it is made of, in order; those of a set have no order.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Absent == 0 - 1

RECURSIVE Equal(_, _)
Count(t, c) == Cardinality({i \in DOMAIN c : Equal(c[i], t)})
Equal(a, b) ==
  /\ a.k = b.k /\ a.s = b.s /\ Len(a.c) = Len(b.c)
  /\ IF a.k = "set" THEN \A i \in DOMAIN a.c : Count(a.c[i], a.c) = Count(a.c[i], b.c)
                    ELSE \A i \in DOMAIN a.c : Equal(a.c[i], b.c[i])

(* two values of the same make, part by part, that differ in nothing but       *)
(* strings of one length. Hashes of small numbers do coincide now and then     *)
(* (uid ..02.. and ..0280.. do), those of strings are as good as random        *)
RECURSIVE Alike(_, _)
Alike(a, b) ==
  /\ a.k = b.k /\ Len(a.c) = Len(b.c)
  /\ IF a.k = "str" THEN Len(a.s) = Len(b.s) ELSE a.s = b.s
  /\ IF a.k = "set" THEN LET other == {i \in DOMAIN a.c : Count(a.c[i], a.c) # Count(a.c[i], b.c)}
                         IN Cardinality(other) <= 1 /\ \A i \in other : a.c[i].k = "str"
                    ELSE \A i \in DOMAIN a.c : Alike(a.c[i], b.c[i])

(* what is known of a hash: seen is a sequence of [t, h]                       *)
HashAgrees(seen, t, h) ==
  \A i \in DOMAIN seen : /\ Equal(seen[i].t, t) => seen[i].h = h
                         /\ (Alike(seen[i].t, t) /\ ~ Equal(seen[i].t, t)) => seen[i].h # h

(* a table is a sequence of [t, v]                                             *)
Where(m, t) == IF \E i \in DOMAIN m : Equal(m[i].t, t) THEN CHOOSE i \in DOMAIN m : Equal(m[i].t, t) ELSE 0
Find(m, t) == LET i == Where(m, t) IN IF i = 0 THEN Absent ELSE m[i].v
Put(m, t, v) == LET i == Where(m, t) IN IF i = 0 THEN Append(m, [t |-> t, v |-> v]) ELSE [m EXCEPT ![i].v = v]
Erase(m, t) == LET i == Where(m, t) IN IF i = 0 THEN m ELSE SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
=============================================================================
