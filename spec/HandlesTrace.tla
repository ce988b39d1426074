---------------------------- MODULE HandlesTrace ----------------------------
EXTENDS Handles, TraceLib
VARIABLES slots, list, cbs, proms
tvars == <<l, slots, list, cbs, proms>>
TraceInit == l = 1 /\ slots = << >> /\ list = << >> /\ cbs = << >> /\ proms = << >>
TReset == IsEvent("reset") /\ slots' = [i \in 1..E.slots |-> Absent] /\ list' = << >> /\ cbs' = [i \in 1..E.cbs |-> 0] /\ proms' = << >>
Has(i) == slots[i] # Absent
(* what every handle has is seen                                              *)
Seen(exp, lst) == /\ slots' = [i \in DOMAIN exp |-> IF exp[i] = Any THEN E.slots[i] ELSE exp[i]]
                  /\ E.slots = slots' /\ list' = lst /\ E.list = lst /\ E.errors = << >>
Quiet == E.heard = << >> /\ E.calls = << >>
Here(exp, lst) == Seen(exp, lst) /\ Quiet /\ UNCHANGED <<cbs, proms>>
TFresh == IsEvent("fresh") /\ Here(Put(slots, E.i, 0), list)
TSet == IsEvent("set") /\ Has(E.i) /\ Here(Put(slots, E.i, E.v), list)
TCopy == IsEvent("copy") /\ Has(E.j) /\ Here(Put(slots, E.i, slots[E.j]), list)
TMove == IsEvent("move") /\ Has(E.j) /\ Here(Moved(slots, E.i, E.j), list)
TSwap == IsEvent("swap") /\ Has(E.i) /\ Has(E.j) /\ Here(Swapped(slots, E.i, E.j), list)
TGone == IsEvent("gone") /\ Has(E.i) /\ Here(Put(slots, E.i, Absent), list)
TTransform == IsEvent("transform") /\ Has(E.i) /\ E.was = <<slots[E.i]>> /\ Here(Put(slots, E.i, E.v), list)
TEqual == IsEvent("equal") /\ Has(E.i) /\ Has(E.j) /\ E.is = (slots[E.i] = slots[E.j]) /\ Here(slots, list)
(* an element of the page, or null                                            *)
TElement == IsEvent("element") /\ Here(Put(slots, E.i, E.v), list)
TInsert == IsEvent("insert") /\ Has(E.i) /\ Here(slots, Inserted(list, E.k, slots[E.i]))
TTake == IsEvent("take") /\ E.k \in DOMAIN list /\ Here(Put(slots, E.i, list[E.k]), Without(list, E.k))
TReverse == IsEvent("reverse") /\ Here(slots, [k \in DOMAIN list |-> list[Len(list) + 1 - k]])
(* callbacks                                                                  *)
TCallback == IsEvent("callback") /\ cbs' = [cbs EXCEPT ![E.c] = E.i] /\ Seen(slots, list) /\ Quiet /\ UNCHANGED proms
TCbGone == IsEvent("cbgone") /\ cbs[E.c] # 0 /\ cbs' = [cbs EXCEPT ![E.c] = 0] /\ Seen(slots, list) /\ Quiet /\ UNCHANGED proms
TCbMove == IsEvent("cbmove") /\ cbs[E.c] # 0 /\ Here(slots, list)
TCall == IsEvent("call") /\ cbs[E.c] # 0 /\ E.calls = <<[c |-> E.c, v |-> E.v]>> /\ E.heard = << >>
         /\ Seen(Put(slots, cbs[E.c], E.v), list) /\ UNCHANGED <<cbs, proms>>
(* promises: of each, what was captured is what the handles had                *)
Of(p, hs) == [k \in DOMAIN hs |-> [p |-> p, s |-> hs[k].s, how |-> hs[k].how, v |-> hs[k].v]]
TPromise == /\ IsEvent("promise") /\ \A k \in DOMAIN E.captures : Has(E.captures[k])
            /\ E.captured = [k \in DOMAIN E.captures |-> slots[E.captures[k]]]
            /\ LET r == Starts(New(E.stages), E.plan, << >>) IN
               proms' = Append(proms, r.p) /\ E.heard = Of(Len(proms) + 1, r.heard)
            /\ E.calls = << >> /\ Seen(slots, list) /\ UNCHANGED cbs
TSettle == /\ IsEvent("settle")
           /\ LET p == proms[E.p]
                  r == IF Heeds(p, E.s) THEN Starts(Settled(p, E.s, E.how), E.plan, <<[s |-> E.s, how |-> E.how, v |-> E.v]>>) ELSE [p |-> p, heard |-> << >>] IN
              proms' = [proms EXCEPT ![E.p] = r.p] /\ E.heard = Of(E.p, r.heard)
           /\ E.calls = << >> /\ Seen(slots, list) /\ UNCHANGED cbs
(* when all have ended, nothing is left                                       *)
TEnd == IsEvent("end") /\ E.left = 0 /\ UNCHANGED <<slots, list, cbs, proms>>
TraceNext == TReset \/ TFresh \/ TSet \/ TCopy \/ TMove \/ TSwap \/ TGone \/ TTransform \/ TEqual \/ TElement \/ TInsert \/ TTake \/ TReverse
             \/ TCallback \/ TCbGone \/ TCbMove \/ TCall \/ TPromise \/ TSettle \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
