----------------------------- MODULE TablesTrace -----------------------------
EXTENDS Tables, TraceLib
VARIABLES db, job
vars == <<l, db, job>>
Idle == [on |-> "idle"]
TraceInit == l = 1 /\ db = {} /\ job = Idle
TReset == IsEvent("reset") /\ db' = {} /\ job' = Idle
TBegin == IsEvent("begin") /\ UNCHANGED db
            /\ job' = [on |-> "writing", nodes |-> E.nodes, keys |-> E.keys, ids |-> << >>]
(* a statement says what the row is to be                                      *)
Says(cols) == /\ SetOf(E.cols) = cols /\ Len(E.cols) = Cardinality(cols)
              /\ IF cols = {} THEN TRUE
                 ELSE /\ E.q.ok /\ E.q.table = E.table /\ E.q.places = Len(E.bound) /\ Len(E.q.cols) = Len(E.bound)
                      /\ {<<E.q.cols[i], E.bound[i]>> : i \in DOMAIN E.q.cols} = cols /\ Len(E.q.cols) = Cardinality(cols)
CanWrite(p) == /\ Ready(job.nodes, job.ids, p)
               /\ E.table = At(job.nodes, p).table
               /\ Says(Cols(job.nodes, job.keys, job.ids, p))
Writing == job.on = "writing"
TRow == /\ IsEvent("row") /\ Writing
        /\ \E p \in Places(job.nodes) :
             /\ CanWrite(p)
             /\ db' = db \cup {Row(job.nodes, job.keys, job.ids, p, E.id)}
             /\ job' = [job EXCEPT !.ids = @ @@ (p :> E.id)]
(* the database refuses a row: nothing more is written                         *)
TRefused == /\ IsEvent("refused") /\ Writing
            /\ \E p \in Places(job.nodes) : CanWrite(p)
            /\ job' = [on |-> "refused"] /\ UNCHANGED db
TGaveUp == IsEvent("gave up") /\ job.on = "refused" /\ job' = Idle /\ UNCHANGED db
TEnd == /\ IsEvent("end") /\ Writing
        /\ DOMAIN job.ids = Places(job.nodes)
        /\ E.id = (IF E.many THEN "" ELSE KeyText(job.nodes[1].table, job.ids[<<<<"r", 1, 0>>>>]))
        /\ job' = Idle /\ UNCHANGED db
(* a change of one row                                                         *)
TChange == IsEvent("change") /\ job.on = "idle" /\ UNCHANGED db
             /\ job' = [on |-> "changing", node |-> E.node, keys |-> E.keys]
TChanged == /\ IsEvent("changed") /\ job.on = "changing"
            /\ E.table = job.node.table
            /\ SetOf(E.cols) = SetOf(job.node.vals) /\ SetOf(E.keys) = SetOf(job.keys)
            /\ E.q.ok /\ E.q.table = E.table /\ E.q.places = Len(E.bound)
            /\ LET n == Len(E.q.cols) k == Len(E.q.keys) IN
               /\ Len(E.bound) = n + k /\ n = Len(job.node.vals) /\ k = Len(job.keys)
               /\ LET sets == {<<E.q.cols[i], E.bound[i]>> : i \in 1..n}
                      conds == {<<E.q.keys[i], E.bound[n + i]>> : i \in 1..k} IN
                  /\ sets = SetOf(job.node.vals) /\ conds = SetOf(job.keys)
                  /\ db' = Update(db, E.q.table, sets, conds)
            /\ job' = Idle
TAsk == IsEvent("ask") /\ job.on = "idle" /\ UNCHANGED db
          /\ job' = [on |-> "asking", shape |-> E.shape, way |-> E.way, key |-> E.key, own |-> E.own]
RECURSIVE Leads(_, _, _, _)
Leads(row, shape, way, key) ==
  IF way = << >> THEN KeyText(row.table, row.id) = key
  ELSE \E i \in DOMAIN shape.kids :
         /\ shape.kids[i][1] = Head(way)
         /\ \E r \in db : r.table = shape.kids[i][2].table /\ KeyText(r.table, r.id) = Cell(row, shape.kids[i][1] \o "_id")
                            /\ Leads(r, shape.kids[i][2], Tail(way), key)
TAsked == /\ IsEvent("asked") /\ job.on = "asking" /\ UNCHANGED db
          /\ E.q.ok /\ E.q.places = Len(E.bound) /\ Len(E.q.keys) = Len(E.bound)
          /\ Cardinality(SetOf(E.q.cols)) = Len(E.q.cols)
          /\ LET q == [cols |-> E.q.cols, from |-> E.q.table, joins |-> E.q.joins,
                       conds |-> {<<E.q.keys[i][1], E.q.keys[i][2], E.bound[i]>> : i \in DOMAIN E.q.keys}] IN
             {SetOf(a) : a \in Shown(db, q)} = {Flat(db, job.shape.table, <<r, job.shape>>) :
                                                 r \in {r \in db : r.table = job.shape.table /\ Leads(r, job.shape, job.way, job.key)
                                                        /\ (job.own # "" => KeyText(r.table, r.id) = job.own)}}
          /\ job' = Idle
TraceNext == TReset \/ TBegin \/ TRow \/ TRefused \/ TGaveUp \/ TEnd \/ TChange \/ TChanged \/ TAsk \/ TAsked
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
