----------------------------- MODULE VariantMC -----------------------------
EXTENDS Variant
CONSTANTS Cfg, Regs
VARIABLES regs, last
vars == <<regs, last>>
Small(type) == CASE type = "int" -> {<<"int", "0">>, <<"int", "5">>}
                 [] type = "string" -> {<<"string", "">>, <<"string", "ab">>}
                 [] type = "ints" -> {<<"ints", "1,2">>}
                 [] type = "inner" -> {<<"inner", "unresolved">>, <<"inner", "string", "ab">>, <<"inner", "int", "5">>}
                 [] type = "outer" -> {<<"outer", "nothing">>, <<"outer", "inner", "int", "5">>}
                 [] OTHER -> {<<type>>}
Vals == UNION {Small(Alts[Cfg][i]) : i \in DOMAIN Alts[Cfg]}
O(o, i, j, v, id) == [o |-> o, i |-> i, j |-> j, v |-> v, id |-> id]
N == << >>
Ops == {O("set", i, 1, v, 0) : i \in Regs, v \in Vals}
  \cup {O(o, i, j, N, 0) : o \in {"copy", "assign", "move", "take"}, i \in Regs, j \in Regs}
  \cup {O("fresh", i, 1, N, 0) : i \in Regs}
  \cup {O("load", i, 1, v, IdOf(Cfg, v)) : i \in Regs, v \in Vals}
  \cup {O("load", i, 1, N, id) : i \in Regs, id \in {0 - 1, Len(Alts[Cfg]), 99}}
  \cup {O("fail", i, 1, N, id) : i \in Regs, id \in 0..(Len(Alts[Cfg]) - 1)}
  \cup {O("poke", i, 1, v, 0) : i \in Regs, v \in {x \in Vals : Len(x) = 2 /\ Head(x) \in {"int", "string"}}}
Init == regs = [i \in Regs |-> Fresh(Cfg)] /\ last = O("none", 1, 1, N, 0)
Next == \E op \in Ops : Possible(Cfg, regs, op) /\ (op.i = op.j => op.o \notin {"move", "take"})
                        /\ regs' = After(Cfg, regs, op) /\ last' = op
Spec == Init /\ [][Next]_vars
View == regs
(* the id and the value always agree; nothing else than the target changes    *)
Sound == \A i \in Regs : regs[i] # Lost =>
           /\ Alts[Cfg][IdOf(Cfg, regs[i]) + 1] = Head(regs[i])
           /\ regs[i] \in Vals \cup {Default(Alts[Cfg][k]) : k \in DOMAIN Alts[Cfg]}
Independent == [][\A i \in Regs : (i # last'.i /\ regs'[i] # regs[i]) => regs'[i] = Lost /\ last'.j = i]_vars
LastPut == [][last'.v # N /\ last'.o \in {"set", "load"} => regs'[last'.i] = last'.v]_vars
Edge == PrintT(<<"EDGE", ToJson(regs), ToJson(last'), ToJson(regs')>>)
=============================================================================
