------------------------------- MODULE EchoMC -------------------------------
(* Every sequence of requests to echoed map stores, with one more request made *)
(* from inside a delivery or a notification.                                   *)
EXTENDS Echo, Json
CONSTANTS Len2    \* how many requests
VARIABLES plan, todo, nested, log
vars == <<evars, plan, todo, nested, log>>
TheCfg == [nprod |-> 1, ncons |-> 2, obs |-> {1}, owner |-> ("p0" :> 0 @@ "p1" :> 0),
           listen |-> ("p0" :> {} @@ "p1" :> {}), kind |-> ("p0" :> "map" @@ "p1" :> "map")]
Msg(k, pt, b) == [kind |-> k, pt |-> pt, a |-> 1, b |-> b, val |-> IF k \in {"up_read", "up_delete"} THEN "none" ELSE k,
                  uid |-> "none", conf |-> "none"]
Reqs == {Msg(k, "p0", 1) : k \in {"up_create", "up_read", "up_update", "up_delete"}}
          \cup {Msg("up_create_nokey", pt, 0) : pt \in {"p0", "p1"}} \cup {Msg("up_update", "p1", 1)}
Nests == {[at |-> "none", i |-> 0, nth |-> 0, m |-> Msg("up_read", "p0", 1)]} \cup
         [at : {"down"}, i : {1, 2}, nth : 1..Len2, m : Reqs] \cup [at : {"notify"}, i : {1}, nth : 1..Len2, m : Reqs]
Init == /\ cfg = TheCfg /\ stack = << >> /\ shown = << >> /\ echo = {0} /\ given = [pt \in {"p0", "p1"} |-> {}]
        /\ units = {} /\ log = << >> /\ nested = FALSE
        /\ \E reqs \in [1..Len2 -> Reqs], n \in Nests : plan = [reqs |-> reqs, nest |-> n] /\ todo = reqs
Log(e, i, m) == log' = Append(log, [e |-> e, i |-> i, m |-> m, d |-> Len(stack)])
Top1 == Len2 - Len(todo)      \* the request in progress
CanNest == /\ ~ nested /\ log # << >> /\ plan.nest.nth = Top1 /\ Len(stack) = 2
           /\ log[Len(log)].e = plan.nest.at /\ log[Len(log)].i = plan.nest.i
Keep == UNCHANGED <<plan, todo, nested>>
Same == UNCHANGED <<echo, given, units>>
Start == stack = << >> /\ todo # << >> /\ Begin(Head(todo)) /\ Same /\ todo' = Tail(todo)
           /\ Log("push", 0, Head(todo)) /\ UNCHANGED <<plan, nested>>
Nest == CanNest /\ Begin(plan.nest.m) /\ Same /\ nested' = TRUE /\ Log("push", 0, plan.nest.m) /\ UNCHANGED <<plan, todo>>
Fresh == CHOOSE k \in 1..9 : k \notin given[Top.m.pt] /\ \A j \in 1..(k - 1) : j \in given[Top.m.pt]
DoReply == stack # << >> /\ Reply(Fresh) /\ Log("echo", 0, stack'[Len(stack')].m) /\ Keep
DoDeliver == stack # << >> /\ \E i \in {1, 2} : Deliver(i, Top.out) /\ Log("down", i, Top.out) /\ Same /\ Keep
DoNotify == stack # << >> /\ Notify(1, PathOf(Top.m)) /\ Log("notify", 1, Top.m) /\ Same /\ Keep
DoDone == Done /\ Log("done", 0, Top.m) /\ Same /\ Keep
DoReplied == Replied /\ Log("replied", 0, Top.m) /\ Keep
Next == Nest \/ (~ CanNest /\ (Start \/ DoReply \/ DoDeliver \/ DoNotify \/ DoDone \/ DoReplied))
Spec == Init /\ [][Next]_vars

Ended == stack = << >> /\ todo = << >>
Idx(e) == {k \in DOMAIN log : log[k].e = e}
(* every request is answered to every consumer, once, before it returns        *)
Answered ==
  Ended => \A i \in {1, 2} :
     Cardinality({k \in Idx("down") : log[k].i = i}) = Cardinality(Idx("push"))
BeforeReturning ==
  stack = << >> => \A i \in {1, 2} : Cardinality({k \in Idx("down") : log[k].i = i}) = Cardinality(Idx("push"))
(* the keys are distinct                                                       *)
Keys == LET K == {k \in Idx("echo") : log[k].m.kind = "down_create" /\ log[k].m.val = "up_create_nokey"} IN
        \A j, k \in K : j # k /\ log[j].m.pt = log[k].m.pt => log[j].m.b # log[k].m.b
(* the store ends up as if the requests had been applied in the order of their *)
(* answers (what was there already is not replaced by the answer to a read)    *)
RECURSIVE Fold(_, _, _)
Fold(p, s, k) ==
  IF k > Len(log) THEN s
  ELSE LET e == log[k] IN
       Fold(p, IF e.e # "echo" \/ PathOf(e.m) # p THEN s
               ELSE CASE e.m.kind \in {"down_create", "down_update"} -> e.m.val
                      [] e.m.kind = "down_delete" -> "trigger"
                      [] e.m.kind = "down_read" -> IF Known(s) THEN s ELSE "nf", k + 1)
Stored == Ended => \A p \in DOMAIN shown : shown[p] = Fold(p, "trigger", 1)
NoWaiting == Ended => \A p \in DOMAIN shown : shown[p] # "unresolved"
Case == TLCGet("level") > 1 \/ PrintT(<<"CASE", ToJson(plan)>>)
=============================================================================
