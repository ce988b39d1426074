------------------------------ MODULE TablesMC ------------------------------
(* Writing the entities of the file JOBS in every order allowed, stopped by    *)
(* the database at any row; then one of the rows is changed                    *)
EXTENDS Tables, IOUtils, Json
VARIABLES n, db, ids, phase, before
vars == <<n, db, ids, phase, before>>
(* [nodes, keys, shape]                                                        *)
Jobs == JsonDeserialize(IOEnv.JOBS)
J == Jobs[n]
Init == n \in DOMAIN Jobs /\ db = {} /\ ids = << >> /\ phase = "writing" /\ before = {}
Write(p) == /\ phase = "writing" /\ Ready(J.nodes, ids, p)
            /\ LET id == Cardinality(db) + 1 IN db' = db \cup {Row(J.nodes, J.keys, ids, p, id)} /\ ids' = ids @@ (p :> id)
            /\ UNCHANGED <<n, phase, before>>
Refuse == /\ phase = "writing" /\ DOMAIN ids # Places(J.nodes) /\ phase' = "refused" /\ UNCHANGED <<n, db, ids, before>>
End == /\ phase = "writing" /\ DOMAIN ids = Places(J.nodes) /\ phase' = "end" /\ UNCHANGED <<n, db, ids, before>>
Change(r) == /\ phase = "end" /\ r \in db /\ phase' = "changed" /\ before' = db
             /\ LET names == {c[1] : c \in r.cols} IN
                db' = Update(db, r.table, {<<c[1], "s:new">> : c \in {c \in r.cols : c[2] # "" }}, {<<KeyName(r.table), KeyText(r.table, r.id)>>})
             /\ UNCHANGED <<n, ids>>
Next == (\E p \in Places(J.nodes) : Write(p)) \/ Refuse \/ End \/ (\E r \in db : Change(r))
Spec == Init /\ [][Next]_vars

(* the keys in a row are those of rows that are there                          *)
Keys == {KeyText(r.table, r.id) : r \in db}
IsKey(v) == Len(v) > 4 /\ SubSeq(v, 1, 4) = "key:"
NoDangling == phase # "changed" => \A r \in db : \A c \in r.cols : IsKey(c[2]) => c[2] \in Keys
OneRowEach == Cardinality(db) = Cardinality(DOMAIN ids)
Rows(nodes) == {r \in db : \E i \in DOMAIN nodes : ids[<<<<"r", i, 0>>>>] = r.id /\ r.table = nodes[i].table}
(* what was written can be read back                                           *)
RoundTrip == phase = "end" => {Whole(db, J.shape, r) : r \in Rows(J.nodes)} = {AsSets(J.nodes[i]) : i \in DOMAIN J.nodes}
KeysKept == phase = "end" => \A r \in Rows(J.nodes) : SetOf(J.keys) \subseteq r.cols
OneChanged == phase = "changed" => Cardinality(db \ before) <= 1 /\ Cardinality(db) = Cardinality(before)
(* never stuck before the end                                                  *)
Goes == (phase = "writing" /\ DOMAIN ids # Places(J.nodes)) => \E p \in Places(J.nodes) : Ready(J.nodes, ids, p)
Cases == phase = "refused" => PrintT(<<"CASE", ToJson(<<n, Cardinality(db)>>)>>)
=============================================================================
