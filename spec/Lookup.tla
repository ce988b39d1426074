------------------------------- MODULE Lookup -------------------------------
(* Stores nested in stores, as terms  [k: kind, s: text, c: <<key, term>>...]  *)
(*   int, str   a value            none   nothing/unresolved/not_in_set        *)
(*   rec        members by key     map    entries by key                       *)
(*   list       items, in their order                                          *)
(*   var        s: the alternative, c: what it holds                           *)
(*   comp       a store composed with a key of its own: its value, the store   *)
(*   ref, alias another name of a store                                        *)
(*   ctx        a store inside a context: any key is its key                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Leafs == {"int", "str", "none", "list"}
None(s) == [k |-> "none", s |-> s, c |-> << >>]
Inner(t) == t.c[Len(t.c)][2]                 \* of var, ref, alias, ctx; the store of comp
Has(t, key) == \E i \in DOMAIN t.c : t.c[i][1] = key
At(t, key) == t.c[CHOOSE i \in DOMAIN t.c : t.c[i][1] = key][2]
IndexOf(t, key) == CHOOSE i \in DOMAIN t.c : t.c[i][1] = key

(* what following a path shows                                                 *)
RECURSIVE Look(_, _)
Look(t, p) ==
  CASE t.k \in Leafs -> t
    [] t.k = "var" -> Look(Inner(t), p)
    [] t.k \in {"ref", "alias"} -> Look(Inner(t), p)
    [] t.k = "ctx" -> IF p = << >> THEN t ELSE Look(Inner(t), Tail(p))
    [] t.k = "comp" -> IF p = << >> THEN t
                       ELSE IF Head(p) = t.s THEN Look(At(t, t.s), Tail(p)) ELSE Look(Inner(t), p)
    [] t.k = "map" -> IF p = << >> THEN t
                      ELSE IF Has(t, Head(p)) THEN Look(At(t, Head(p)), Tail(p)) ELSE None("not_in_set")
    [] t.k = "rec" -> IF p = << >> THEN t ELSE Look(At(t, Head(p)), Tail(p))

(* a path names no part of a plain value: nothing is claimed of those          *)
RECURSIVE Claimed(_, _)
Claimed(t, p) ==
  CASE t.k \in {"int", "str"} -> p = << >>
    [] t.k = "none" -> TRUE
    [] t.k \in {"var", "ref", "alias"} -> Claimed(Inner(t), p)
    [] t.k = "ctx" -> p = << >> \/ Claimed(Inner(t), Tail(p))
    [] t.k = "comp" -> p = << >> \/ (IF Head(p) = t.s THEN Claimed(At(t, t.s), Tail(p)) ELSE Claimed(Inner(t), p))
    [] t.k = "map" -> p = << >> \/ ~ Has(t, Head(p)) \/ Claimed(At(t, Head(p)), Tail(p))
    [] t.k = "rec" -> p = << >> \/ Claimed(At(t, Head(p)), Tail(p))

With(t, i, x) == [t EXCEPT !.c[i] = <<t.c[i][1], x>>]
(* the number or string at a path changed in place                             *)
RECURSIVE Put(_, _, _)
Put(t, p, v) ==
  CASE t.k \in Leafs -> IF p = << >> /\ t.k = v.k THEN v ELSE t
    [] t.k \in {"var", "ref", "alias"} -> With(t, Len(t.c), Put(Inner(t), p, v))
    [] p = << >> -> t
    [] t.k = "ctx" -> With(t, Len(t.c), Put(Inner(t), Tail(p), v))
    [] t.k = "comp" -> IF Head(p) = t.s THEN With(t, IndexOf(t, t.s), Put(At(t, t.s), Tail(p), v))
                       ELSE With(t, Len(t.c), Put(Inner(t), p, v))
    [] t.k = "map" -> IF Has(t, Head(p)) THEN With(t, IndexOf(t, Head(p)), Put(At(t, Head(p)), Tail(p), v)) ELSE t
    [] t.k = "rec" -> With(t, IndexOf(t, Head(p)), Put(At(t, Head(p)), Tail(p), v))

(* an action for a part: the keys of composed stores that lead to it; what is *)
(* below all compositions when no key is left                                  *)
RECURSIVE Act(_, _, _)
Act(t, ks, v) ==
  CASE t.k = "comp" -> IF ks # << >> /\ Head(ks) = t.s THEN With(t, IndexOf(t, t.s), Act(At(t, t.s), Tail(ks), v))
                       ELSE With(t, Len(t.c), Act(Inner(t), ks, v))
    [] t.k = "ref" -> With(t, 1, Act(Inner(t), ks, v))
    [] OTHER -> IF ks = << >> THEN v ELSE t

(* walking a range of elements, each composed with the store under the key it *)
Walk(t, es, p) == [i \in DOMAIN es |-> IF p # << >> /\ Head(p) = "it" THEN Look(es[i], Tail(p)) ELSE Look(t, p)]
WalkClaimed(t, es, p) == \A i \in DOMAIN es : IF p # << >> /\ Head(p) = "it" THEN Claimed(es[i], Tail(p)) ELSE Claimed(t, p)
=============================================================================
