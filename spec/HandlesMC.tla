----------------------------- MODULE HandlesMC ------------------------------
EXTENDS Handles, TLC, Json, FiniteSets
CONSTANTS Slots, Values, MaxList, Cases
S == 1..Slots
V == 0..Values
VARIABLES slots, list, cb, prom, heard
vars == <<slots, list, cb, prom, heard>>
None == [stages |-> 0, at |-> 1]
Init == slots = [i \in S |-> Absent] /\ list = << >> /\ cb = 0 /\ prom = None /\ heard = << >>
St == <<slots, list, cb, prom>>
Rec(op) == Cases => PrintT(<<"EDGE", ToJson(St), ToJson(op), ToJson(<<slots', list', cb', prom'>>)>>)
Keep(op) == /\ UNCHANGED <<cb, prom, heard>> /\ (\A i \in S : slots'[i] # Any) /\ Rec(op)
Has(i) == slots[i] # Absent
SlotOp == \E i, j \in S :
  \/ ~Has(i) /\ i = j /\ slots' = Put(slots, i, 0) /\ UNCHANGED list /\ Keep([op |-> "fresh", i |-> i])
  \/ i = j /\ Has(i) /\ \E v \in V : slots' = Put(slots, i, v) /\ UNCHANGED list /\ Keep([op |-> "set", i |-> i, v |-> v])
  \/ Has(j) /\ slots' = Put(slots, i, slots[j]) /\ UNCHANGED list /\ Keep([op |-> "copy", i |-> i, j |-> j])
  \/ i # j /\ Has(j) /\ slots' = Moved(slots, i, j) /\ UNCHANGED list /\ Keep([op |-> "move", i |-> i, j |-> j])
  \/ Has(i) /\ Has(j) /\ slots' = Swapped(slots, i, j) /\ UNCHANGED list /\ Keep([op |-> "swap", i |-> i, j |-> j])
  \/ i = j /\ Has(i) /\ slots' = Put(slots, i, Absent) /\ UNCHANGED list /\ Keep([op |-> "gone", i |-> i])
  \/ Has(i) /\ Has(j) /\ UNCHANGED <<slots, list>> /\ Keep([op |-> "equal", i |-> i, j |-> j])
  \/ i = j /\ Has(i) /\ Len(list) < MaxList /\ \E k \in 1..(Len(list) + 1) : list' = Inserted(list, k, slots[i]) /\ UNCHANGED slots /\ Keep([op |-> "insert", i |-> i, k |-> k])
  \/ i = j /\ \E k \in DOMAIN list : list' = Without(list, k) /\ slots' = Put(slots, i, list[k]) /\ Keep([op |-> "take", i |-> i, k |-> k])
CbOp == /\ UNCHANGED <<list, prom, heard>>
        /\ \/ cb = 0 /\ UNCHANGED slots /\ \E i \in S : cb' = i /\ Rec([op |-> "callback", c |-> 1, i |-> i])
           \/ cb # 0 /\ cb' = 0 /\ UNCHANGED slots /\ Rec([op |-> "cbgone", c |-> 1])
           \/ cb # 0 /\ UNCHANGED cb /\ \E v \in V : slots' = Put(slots, cb, v) /\ Rec([op |-> "call", c |-> 1, v |-> v])
Plans == {<< >>, <<[how |-> "then", v |-> 1]>>, <<[how |-> "catch", v |-> 0]>>, <<[how |-> "then", v |-> 0], [how |-> "then", v |-> 1]>>, <<[how |-> "then", v |-> 1], [how |-> "catch", v |-> 1]>>}
PromOp == /\ UNCHANGED <<slots, list, cb>>
          /\ \/ prom = None /\ \E n \in 1..2 : \E plan \in Plans : Len(plan) <= n
                /\ LET r == Starts(New(n), plan, << >>) IN prom' = r.p /\ heard' = heard \o r.heard /\ Rec([op |-> "promise", stages |-> n, plan |-> plan])
             \/ prom # None /\ \E s \in 1..prom.stages : s <= prom.at /\ (Done(prom) => s < 3) /\ \E how \in {"then", "catch"} : \E v \in V : \E plan \in {<< >>, <<[how |-> "catch", v |-> v]>>} :
                  /\ (plan # << >> => how = "then" /\ s < prom.stages /\ Heeds(prom, s))
                  /\ LET one == Settled(prom, s, how)
                         r == IF Heeds(prom, s) THEN Starts(one, plan, <<[s |-> s, how |-> how, v |-> v]>>) ELSE [p |-> prom, heard |-> << >>] IN
                     prom' = r.p /\ heard' = heard \o r.heard /\ Rec([op |-> "settle", p |-> 1, s |-> s, how |-> how, v |-> v, plan |-> plan])
Next == SlotOp \/ CbOp \/ PromOp
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------------- *)
Once == /\ Len(heard) <= prom.stages
        /\ \A k \in DOMAIN heard : heard[k].s = k /\ (heard[k].how = "catch" => k = Len(heard))
        /\ (prom.stages > 0 => Done(prom) <=> (Len(heard) = prom.stages \/ (heard # << >> /\ heard[Len(heard)].how = "catch")))
Twice == \A i, j \in S : Has(i) /\ Has(j) => Swapped(Swapped(slots, i, j), i, j) = slots
Others == [][\A i \in S : slots'[i] # slots[i] => \A j \in S \ {i} : slots'[j] = slots[j] \/ (slots'[j] = 0 /\ slots'[i] = slots[j]) \/ (slots'[i] = 0 /\ slots'[j] = slots[i]) \/ (slots'[i] = slots[j] /\ slots'[j] = slots[i])]_vars
View == St
=============================================================================
