------------------------------ MODULE LookupMC ------------------------------
(* The laws of looking up and changing, on every structure (present keys,      *)
(* alternatives) of the store shapes in the file SHAPES                        *)
EXTENDS StoreTerms, IOUtils
VARIABLES shape, term, phase
vars == <<shape, term, phase>>
Shapes == JsonDeserialize(IOEnv.SHAPES)
Init == /\ shape \in DOMAIN Shapes
        /\ term \in Terms(Shapes[shape])
        /\ phase = "start"
Next == phase = "start" /\ phase' = "end" /\ UNCHANGED <<shape, term>>
Spec == Init /\ [][Next]_vars

(* every path that leads somewhere, and one key that is missing                *)
RECURSIVE Paths(_)
Paths(t) ==
  CASE t.k \in Leafs -> {<< >>}
    [] t.k \in {"var", "ref", "alias"} -> Paths(Inner(t))
    [] t.k = "ctx" -> {<< >>} \cup {<<"k">> \o p : p \in Paths(Inner(t))}
    [] t.k = "comp" -> {<< >>} \cup {<<t.s>> \o p : p \in Paths(At(t, t.s))} \cup {p \in Paths(Inner(t)) : p # << >> /\ Head(p) # t.s}
    [] t.k = "map" -> {<< >>, <<"gone">>} \cup UNION {{<<t.c[i][1]>> \o p : p \in Paths(t.c[i][2])} : i \in DOMAIN t.c}
    [] t.k = "rec" -> {<< >>} \cup UNION {{<<t.c[i][1]>> \o p : p \in Paths(t.c[i][2])} : i \in DOMAIN t.c}

(* where a path ends, as the positions walked                                  *)
RECURSIVE Place(_, _)
Place(t, p) ==
  CASE t.k \in Leafs -> << >>
    [] t.k \in {"var", "ref", "alias"} -> <<1>> \o Place(Inner(t), p)
    [] p = << >> -> << >>
    [] t.k = "ctx" -> <<1>> \o Place(Inner(t), Tail(p))
    [] t.k = "comp" -> IF Head(p) = t.s THEN <<1>> \o Place(At(t, t.s), Tail(p)) ELSE <<2>> \o Place(Inner(t), p)
    [] t.k = "map" -> IF Has(t, Head(p)) THEN <<IndexOf(t, Head(p))>> \o Place(At(t, Head(p)), Tail(p)) ELSE <<99>>
    [] OTHER -> <<IndexOf(t, Head(p))>> \o Place(At(t, Head(p)), Tail(p))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Settled == \A p \in Paths(term) : Claimed(term, p) /\ Look(term, p).k \notin {"var", "ref", "alias"}
Missing == \A p \in Paths(term) : (p # << >> /\ p[Len(p)] = "gone") => Look(term, p) = None("not_in_set")
OneByOne == \A p \in Paths(term) : \A n \in 0..Len(p) :
              LET h == Look(term, SubSeq(p, 1, n)) IN h.k # "none" => Look(h, SubSeq(p, n + 1, Len(p))) = Look(term, p)
Nine == Int("9")
PutSeen == \A p \in Paths(term) : LET u == Put(term, p, Nine) IN
             /\ Look(term, p).k = "int" => Look(u, p) = Nine
             /\ Look(term, p).k # "int" => u = term
             /\ Paths(u) = Paths(term)
             /\ \A q \in Paths(term) : (~ Prefix(Place(term, q), Place(term, p))) => Look(u, q) = Look(term, q)
(* the keys of the compositions down to each replaceable part                  *)
RECURSIVE ActKeys(_)
ActKeys(t) == CASE t.k = "comp" -> {<<t.s>> \o ks : ks \in ActKeys(At(t, t.s))} \cup {ks \in ActKeys(Inner(t)) : ks = << >> \/ Head(ks) # t.s}
                [] t.k = "ref" -> ActKeys(Inner(t))
                [] OTHER -> {<< >>}
RECURSIVE Part(_, _)
Part(t, ks) == CASE t.k = "comp" -> IF ks # << >> /\ Head(ks) = t.s THEN Part(At(t, t.s), Tail(ks)) ELSE Part(Inner(t), ks)
                 [] t.k = "ref" -> Part(Inner(t), ks)
                 [] OTHER -> t
ActOnly == \A ks \in ActKeys(term) : LET u == Act(term, ks, Nine) IN
             \A js \in ActKeys(term) : Part(u, js) = (IF js = ks THEN Nine ELSE Part(term, js))
Cases == phase = "end" => PrintT(<<"CASE", ToJson(<<shape, term>>)>>)
=============================================================================
