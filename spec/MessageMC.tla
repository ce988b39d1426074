----------------------------- MODULE MessageMC -----------------------------
EXTENDS Message
VARIABLES m, c
Pars == {<< >>, <<"1">>, <<"1", "a">>}
M == [ch : {"up", "down"}, act : Actions, par : Pars, key : {"-", "k"}, kt : {"num", "str", "empty"},
      uid : {"-", "u"}, ut : {"none", "num", "id"}, val : {"-", "v"}, priv : {"-", "p"}, conf : {"-", "true", "false"}]
KeyStr(kt, n) == CASE kt = "num" -> ToString(n) [] kt = "str" -> "s" \o ToString(n) [] kt = "empty" -> "unit"
UidStr(ut) == CASE ut = "none" -> "-" [] ut = "num" -> "42" [] ut = "id" -> "u7"
(* the strings that go with the types                                         *)
Typed(x) == [x EXCEPT !.key = IF x.key = "-" THEN "-" ELSE KeyStr(x.kt, 3), !.uid = UidStr(x.ut)]
Messages == {Typed(x) : x \in {y \in M : WellFormed(y)}}
Conversions(x) == {[to |-> "none", conf |-> "-", key |-> "-", val |-> "-"]} \cup
  {y \in ({[to |-> "plain", conf |-> b, key |-> "-", val |-> "-"] : b \in {"-", "true", "false"}}
     \cup {[to |-> "key", conf |-> b, key |-> KeyStr(x.kt, 9), val |-> "-"] : b \in {"-", "true"}}
     \cup {[to |-> "read", conf |-> "-", key |-> "-", val |-> v] : v \in {"w", "nf"}}) : CanConvert(x, y)}
Init == m \in Messages /\ c \in Conversions(m)
Next == UNCHANGED <<m, c>>
Spec == Init /\ [][Next]_<<m, c>>
Kept == c.to # "none" => Keeps(m, Convert(m, c)) /\ WellFormed(Convert(m, c))
Answered == c.to # "none" => ~NeedsKey(Convert(m, c))
(* every request can be answered in exactly one way                           *)
OneWay == m.ch = "up" => Cardinality({t \in {"plain", "read"} : CanConvert(m, [c EXCEPT !.to = t])}) = (IF NeedsKey(m) THEN 0 ELSE 1)
Case == PrintT(<<"CASE", ToJson([m |-> m, c |-> c])>>)
=============================================================================
