------------------------------ MODULE SocketMC ------------------------------
(* Two endpoints, their peers, and what each of their users was told.         *)
EXTENDS Socket, Integers, TLC, Json, FiniteSets
CONSTANTS MaxTold, Cases, Ends
Q == 34
Bytes == {<< >>, <<0>>, <<255, 0, 7>>}
Values == {<<Q, 97, Q>>, <<91, 93>>}
React(s, t, n, at, th, c) == [ready |-> [say |-> s, then |-> t], message |-> [echo |-> n, at |-> at, then |-> th], close |-> [say |-> << >>, then |-> c]]
Reacts(kind) == LET p == IF kind = "bytes" THEN <<0>> ELSE <<91, 93>> IN
  {React(<< >>, "", 0, 0, "", ""), React(<<p, p>>, "", 1, 2, "close", "drop"), React(<<p>>, "close", 0, 0, "", ""),
   React(<< >>, "drop", 0, 0, "", ""), React(<< >>, "", 2, 1, "drop", "")}
TextOf(v) == [t |-> "text", b |-> v, ok |-> TRUE, v |-> v]
Fs == {TextOf(v) : v \in Values} \cup {[t |-> "text", b |-> <<123>>, ok |-> FALSE, v |-> << >>], [t |-> "binary", b |-> <<1, 0>>, ok |-> FALSE, v |-> << >>]}
VARIABLES es, told
vars == <<es, told>>
Kinds == {"bytes", "json"}
Init == /\ \E ks \in [1..Ends -> Kinds] : \E r \in 1..5 : LET pick(k) == CHOOSE s \in [1..5 -> Reacts(k)] : \A i, j \in 1..5 : i # j => s[i] # s[j] IN
             es = [i \in 1..Ends |-> New(ks[i], pick(ks[i])[IF i = 1 THEN r ELSE 1 + (r % 5)])]
        /\ told = [i \in 1..Ends |-> << >>]
Rec(op) == Cases => PrintT(<<"EDGE", ToJson(es), ToJson(op), ToJson(es')>>)
Do(i, r, op) == /\ es' = [es EXCEPT ![i] = r.e] /\ told' = [told EXCEPT ![i] = @ \o [k \in DOMAIN r.heard |-> r.heard[k].n]] /\ Rec(op)
Next == \E i \in 1..Ends :
  \/ es[i].phase = "connecting" /\ Do(i, Opened(es[i]), [op |-> "open", i |-> i])
  \/ \E f \in Fs : es[i].told < MaxTold /\ Do(i, Told(es[i], f), [op |-> "frame", i |-> i, f |-> f])
  \/ es[i].phase # "closed" /\ Do(i, Gone(es[i]), [op |-> "gone", i |-> i])
  \/ es[i].live /\ \/ \E p \in IF es[i].kind = "bytes" THEN Bytes ELSE Values : es[i].phase # "connecting" /\ Do(i, Sent(es[i], <<p>>), [op |-> "send", i |-> i, p |-> p])
                   \/ Do(i, [Quiet(es[i]) EXCEPT !.e = Closing(es[i])], [op |-> "close", i |-> i])
                   \/ Do(i, [Quiet(es[i]) EXCEPT !.e = Dropped(es[i])], [op |-> "drop", i |-> i])
Spec == Init /\ [][Next]_vars
View == es
(* ------------------------------------------------------------------------- *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* ready first, and once; closed last, and once; every message between         *)
Order == \A i \in 1..Ends : LET t == told[i] IN
  /\ Count(t, "ready") <= 1 /\ Count(t, "close") <= 1
  /\ \A k \in DOMAIN t : (t[k] = "ready" => k = 1) /\ (t[k] = "close" => k = Len(t)) /\ (t[k] = "message" => t[1] = "ready")
  /\ Count(t, "message") = es[i].told
  /\ (es[i].phase = "closed" /\ es[i].live) => Count(t, "close") = 1
(* who is gone hears no more, and no one hears of another                      *)
Silence == [][\A i \in 1..Ends : (~es[i].live => told'[i] = told[i]) /\ (told'[i] # told[i] => \A j \in 1..Ends \ {i} : es'[j] = es[j])]_vars
Forward == [][\A i \in 1..Ends : State(es'[i]) >= State(es[i]) /\ (~es[i].live => ~es'[i].live)]_vars
=============================================================================
