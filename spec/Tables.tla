------------------------------- MODULE Tables -------------------------------
(* Entities in tables.  An entity is [table, vals, kids, lists]: the values    *)
(* <<name, value>> it has, the entities <<name, entity>> it has, and the lists *)
(* <<name, entities>> it has.                                                  *)
(* Writing it puts one row for each entity in the database: those it has       *)
(* before it, those in its lists after it.  A row is [table, id, cols].        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SetOf(s) == {s[i] : i \in DOMAIN s}
KeyText(table, id) == "key:" \o table \o ":" \o ToString(id)
KeyName(table) == table \o "_id"

(* places: << <<"r", i, 0>>, ... >> the i-th entity written, <<"k", i, 0>> the *)
(* i-th entity it has, <<"l", i, j>> the j-th in its i-th list                 *)
RECURSIVE At(_, _)
At(n, p) == IF p = << >> THEN n
            ELSE At(CASE p[1][1] = "r" -> n[p[1][2]]
                      [] p[1][1] = "k" -> n.kids[p[1][2]][2]
                      [] p[1][1] = "l" -> n.lists[p[1][2]][2][p[1][3]], Tail(p))
RECURSIVE Below(_, _)
Below(n, p) == {p} \cup UNION {Below(n.kids[i][2], Append(p, <<"k", i, 0>>)) : i \in DOMAIN n.kids}
                     \cup UNION {UNION {Below(n.lists[i][2][j], Append(p, <<"l", i, j>>)) : j \in DOMAIN n.lists[i][2]} : i \in DOMAIN n.lists}
Places(nodes) == UNION {Below(nodes[i], <<<<"r", i, 0>>>>) : i \in DOMAIN nodes}
Up(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]

(* what has to be there before                                                 *)
Needs(nodes, p) == {Append(p, <<"k", i, 0>>) : i \in DOMAIN At(nodes, p).kids}
                     \cup (IF Last(p)[1] = "l" THEN {Up(p)} ELSE {})
(* ids: what is there, place by place                                          *)
Ready(nodes, ids, p) == p \notin DOMAIN ids /\ Needs(nodes, p) \subseteq DOMAIN ids
(* keys: further columns of the entities written                               *)
Cols(nodes, keys, ids, p) ==
  LET n == At(nodes, p) IN
  SetOf(n.vals)
    \cup {<<n.kids[i][1] \o "_id", KeyText(n.kids[i][2].table, ids[Append(p, <<"k", i, 0>>)])>> : i \in DOMAIN n.kids}
    \cup (IF Last(p)[1] = "l" THEN LET t == At(nodes, Up(p)).table IN {<<KeyName(t), KeyText(t, ids[Up(p)])>>} ELSE {})
    \cup (IF Last(p)[1] = "r" THEN SetOf(keys) ELSE {})
Row(nodes, keys, ids, p, id) == [table |-> At(nodes, p).table, id |-> id, cols |-> Cols(nodes, keys, ids, p)]

(* a condition <<name, value>> on a row                                        *)
Has(row, c) == \/ c[1] = KeyName(row.table) /\ c[2] = KeyText(row.table, row.id)
               \/ c \in row.cols
Hits(row, conds) == \A c \in conds : Has(row, c)
(* values replace those of the same name                                       *)
Changed(row, vals) == [row EXCEPT !.cols = {c \in @ : \A v \in vals : v[1] # c[1]} \cup vals]
Update(db, table, vals, conds) == {IF r.table = table /\ Hits(r, conds) THEN Changed(r, vals) ELSE r : r \in db}

(* A question is [cols, from, joins, conds]: columns <<alias, name>>; joins    *)
(* [table, alias, a, b] on column a being equal to column b; conditions        *)
(* <<alias, name, value>>.  An answer maps aliases to rows.                    *)
Cell(row, name) == IF name = KeyName(row.table) THEN KeyText(row.table, row.id)
                   ELSE IF \E c \in row.cols : c[1] = name THEN (CHOOSE c \in row.cols : c[1] = name)[2]
                   ELSE "no column " \o name
RECURSIVE Joined(_, _, _)
Joined(db, as, joins) ==
  IF joins = << >> THEN as
  ELSE LET j == Head(joins)
           wider == {a @@ (j.alias :> r) : a \in as, r \in {r \in db : r.table = j.table}} IN
       Joined(db, {x \in wider : Cell(x[j.a[1]], j.a[2]) = Cell(x[j.b[1]], j.b[2])}, Tail(joins))
Answers(db, q) == {a \in Joined(db, {(q.from :> r) : r \in {r \in db : r.table = q.from}}, q.joins) :
                     \A c \in q.conds : Cell(a[c[1]], c[2]) = c[3]}
Shown(db, q) == {[i \in DOMAIN q.cols |-> <<q.cols[i], Cell(a[q.cols[i][1]], q.cols[i][2])>>] : a \in Answers(db, q)}

(* the values of an entity as rows: columns named after the way to them        *)
RECURSIVE Flat(_, _, _)
Flat(db, way, row_shape) ==
  LET row == row_shape[1] shape == row_shape[2] IN
  {<<<<way, shape.vals[i]>>, Cell(row, shape.vals[i])>> : i \in DOMAIN shape.vals}
    \cup UNION {UNION {Flat(db, way \o "." \o shape.kids[i][1], <<r, shape.kids[i][2]>>) :
                         r \in {r \in db : r.table = shape.kids[i][2].table
                                           /\ KeyText(r.table, r.id) = Cell(row, shape.kids[i][1] \o "_id")}} : i \in DOMAIN shape.kids}

(* the entity in the rows                                                      *)
RECURSIVE Whole(_, _, _)
Whole(db, shape, row) ==
  [table |-> shape.table,
   vals |-> {<<shape.vals[i], Cell(row, shape.vals[i])>> : i \in DOMAIN shape.vals},
   kids |-> {<<shape.kids[i][1], {Whole(db, shape.kids[i][2], r) : r \in {r \in db : r.table = shape.kids[i][2].table /\ KeyText(r.table, r.id) = Cell(row, shape.kids[i][1] \o "_id")}}>> : i \in DOMAIN shape.kids},
   lists |-> {<<shape.lists[i][1], {Whole(db, shape.lists[i][2], r) : r \in {r \in db : r.table = shape.lists[i][2].table /\ <<KeyName(row.table), KeyText(row.table, row.id)>> \in r.cols}}>> : i \in DOMAIN shape.lists}]
RECURSIVE AsSets(_)
AsSets(n) == [table |-> n.table, vals |-> SetOf(n.vals),
              kids |-> {<<n.kids[i][1], {AsSets(n.kids[i][2])}>> : i \in DOMAIN n.kids},
              lists |-> {<<n.lists[i][1], {AsSets(n.lists[i][2][j]) : j \in DOMAIN n.lists[i][2]}>> : i \in DOMAIN n.lists}]
=============================================================================
