----------------------------- MODULE KeyedTrace -----------------------------
EXTENDS Keyed, TraceLib
VARIABLES seen, table, ids
vars == <<l, seen, table, ids>>
TraceInit == l = 1 /\ seen = << >> /\ table = << >> /\ ids = {}
TReset == IsEvent("reset") /\ seen' = << >> /\ table' = << >> /\ ids' = {}
(* built as asked, and hashed                                                  *)
THash == IsEvent("hash") /\ Equal(E.now, E.t) /\ HashAgrees(seen, E.t, E.h)
           /\ seen' = Append(seen, [t |-> E.t, h |-> E.h]) /\ UNCHANGED <<table, ids>>
TSame == IsEvent("same") /\ E.eq = Equal(E.t, E.u) /\ E.ne = (~ E.eq) /\ UNCHANGED <<seen, table, ids>>
TPut == IsEvent("put") /\ E.had = Find(table, E.t) /\ table' = Put(table, E.t, E.v) /\ E.size = Len(table') /\ UNCHANGED <<seen, ids>>
TFind == IsEvent("find") /\ E.got = Find(table, E.t) /\ E.size = Len(table) /\ UNCHANGED <<seen, table, ids>>
TErase == IsEvent("erase") /\ E.n = (IF Where(table, E.t) = 0 THEN 0 ELSE 1) /\ table' = Erase(table, E.t) /\ E.size = Len(table') /\ UNCHANGED <<seen, ids>>
(* all entries, each once                                                      *)
TAll == /\ IsEvent("all")
        /\ Len(E.all) = Len(table)
        /\ \A i \in DOMAIN table : \E j \in DOMAIN E.all : Equal(E.all[j][1], table[i].t) /\ E.all[j][2] = table[i].v
        /\ UNCHANGED <<seen, table, ids>>
(* new identifiers: fresh ones, none twice                                     *)
TGen == /\ IsEvent("gen")
        /\ E.fresh = E.n
        /\ \A i \in DOMAIN E.ids : E.ids[i] \notin ids
        /\ Cardinality(Range(E.ids)) = Len(E.ids)
        /\ ids' = ids \cup Range(E.ids) /\ UNCHANGED <<seen, table>>
TraceNext == TReset \/ THash \/ TSame \/ TPut \/ TFind \/ TErase \/ TAll \/ TGen
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
