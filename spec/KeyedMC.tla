------------------------------ MODULE KeyedMC ------------------------------
(* A table over the keys listed for each shape in the file KEYS, against what  *)
(* was put there last                                                          *)
EXTENDS Keyed, IOUtils, Json
VARIABLES shape, table, last, op
vars == <<shape, table, last, op>>
Keys == JsonDeserialize(IOEnv.KEYS)
Ks == Keys[shape]
Same(i) == {j \in DOMAIN Ks : Equal(Ks[i], Ks[j])}
Init == shape \in DOMAIN Keys /\ table = << >> /\ last = [i \in DOMAIN Ks |-> Absent] /\ op = <<"none", 0, 0>>
DoPut(i, v) == /\ table' = Put(table, Ks[i], v) /\ op' = <<"put", i, v>>
               /\ last' = [j \in DOMAIN Ks |-> IF j \in Same(i) THEN v ELSE last[j]]
DoErase(i) == /\ table' = Erase(table, Ks[i]) /\ op' = <<"erase", i, 0>>
              /\ last' = [j \in DOMAIN Ks |-> IF j \in Same(i) THEN Absent ELSE last[j]]
Next == /\ UNCHANGED shape
        /\ \E i \in DOMAIN Ks : DoErase(i) \/ \E v \in 1..2 : DoPut(i, v)
Spec == Init /\ [][Next]_vars

NoneTwice == \A i, j \in DOMAIN table : Equal(table[i].t, table[j].t) => i = j
Found == \A i \in DOMAIN Ks : Find(table, Ks[i]) = last[i]
Known == \A e \in DOMAIN table : \E i \in DOMAIN Ks : Equal(table[e].t, Ks[i])
Equivalence == \A i, j \in DOMAIN Ks : /\ Equal(Ks[i], Ks[i])
                                       /\ Equal(Ks[i], Ks[j]) => Equal(Ks[j], Ks[i]) /\ Alike(Ks[i], Ks[j])
                                       /\ \A k \in DOMAIN Ks : (Equal(Ks[i], Ks[j]) /\ Equal(Ks[j], Ks[k])) => Equal(Ks[i], Ks[k])
View == <<shape, last>>
Edge == PrintT(<<"EDGE", ToJson(View), ToJson(op'), ToJson(<<shape', last'>>)>>)
=============================================================================
