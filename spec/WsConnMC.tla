------------------------------ MODULE WsConnMC ------------------------------
(* An endpoint ("a") against a raw peer ("b"), or two endpoints: every       *)
(* interleaving of user operations, frames and deliveries within the bounds. *)
EXTENDS WsConn, Json, TLC
CONSTANTS Pair, MaxSend, MaxRaw, Edges, Faults, Closes
VARIABLES handed, got, nraw, op
mvars == <<vars, handed, got, nraw, op>>

E1(s) == <<  <<(IF s = "a" THEN 10 ELSE 20) + Len(handed[s]), 1>> >>
E2(s) == Join(E1(s), << <<1, 1>> >>)
Split(p) == {k \in 0..Len(p) : k = Len(p) \/ k > 0}
Eps == IF Pair THEN Sides ELSE {"a"}

Init ==
  /\ ty = [s \in Sides |-> IF s \in Eps THEN 1 ELSE 0]
  /\ started = [s \in Sides |-> FALSE] /\ stopped = [s \in Sides |-> FALSE]
  /\ queue = [s \in Sides |-> << >>] /\ cur = [s \in Sides |-> Idle] /\ frame = [s \in Sides |-> NoFrame]
  /\ want = [s \in Sides |-> FALSE] /\ grace = [s \in Sides |-> FALSE] /\ stall = [s \in Sides |-> FALSE]
  /\ csent = [s \in Sides |-> 0] /\ told = [s \in Sides |-> 0]
  /\ acc = [s \in Sides |-> << >>] /\ ended = [s \in Sides |-> FALSE] /\ due = [s \in Sides |-> << >>]
  /\ dead = FALSE
  /\ handed = [s \in Sides |-> << >>] /\ got = [s \in Sides |-> << >>] /\ nraw = 0 /\ op = [o |-> "none"]

Tell(x) == op' = x
Same == UNCHANGED <<handed, got, nraw>>

MSend(s) == \E p \in {E1(s), E2(s)} :
  /\ Len(handed[s]) < MaxSend /\ DoSend(s, p)
  /\ handed' = Upd(handed, s, Append(handed[s], p)) /\ UNCHANGED <<got, nraw>>
  /\ Tell([o |-> "send", s |-> s, p |-> p])
MStart(s) == ~started[s] /\ ~stopped[s] /\ DoStart(s) /\ Same /\ Tell([o |-> "start", s |-> s])
MClose(s) == Closes /\ ~want[s] /\ DoClose(s) /\ Same /\ Tell([o |-> "close", s |-> s])
MStop(s)  == Faults /\ Closes /\ ~stopped[s] /\ DoStop(s) /\ Same /\ Tell([o |-> "stop", s |-> s])
\* the raw peer: well-formed fragmentation, control frames anywhere, unknown opcodes, end of stream
RawOps == {<<1, TRUE>>, <<1, FALSE>>, <<0, TRUE>>, <<0, FALSE>>, <<9, TRUE>>, <<8, TRUE>>, <<3, TRUE>>}
MRaw == \E f \in RawOps :
  /\ ~Pair /\ nraw < MaxRaw /\ csent["b"] = 0 /\ ~ended["a"]
  /\ f[1] = 1 => acc["a"] = << >>
  /\ f[1] = 0 => acc["a"] # << >>
  /\ LET p == << <<50 + nraw, 1>> >> IN
     /\ Reader("a", f[1], f[2], p)
     /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, want, grace, stall, told, dead>>
     /\ csent' = IF f[1] = 8 THEN Upd(csent, "b", 2) ELSE csent
     /\ Tell([o |-> "frame", op |-> f[1], fin |-> f[2], p |-> p])
  /\ nraw' = nraw + 1 /\ UNCHANGED <<handed, got>>
MCut == Faults /\ ~Pair /\ ~ended["a"] /\ Cut("b") /\ Same /\ Tell([o |-> "cut"])

\* the endpoint: whole frames at once
Put(s, o, fin, p) ==
  /\ started[s] /\ csent[s] = 0 /\ ~stopped[s]
  /\ IF o = 8 THEN /\ MayBeginClose(s)
                   /\ csent' = Upd(csent, s, 2) /\ Reader(Other(s), 8, TRUE, << >>)
                   /\ UNCHANGED <<queue, cur>>
     ELSE LET c == IF cur[s].on THEN cur[s] ELSE [on |-> TRUE, p |-> queue[s][1], done |-> << >>, n |-> 0] IN
          /\ cur[s].on \/ MayBeginMsg(s)
          /\ queue' = IF cur[s].on THEN queue ELSE Upd(queue, s, Tail(queue[s]))
          /\ cur' = Upd(cur, s, IF fin THEN Idle ELSE [c EXCEPT !.done = Join(@, p), !.n = @ + 1])
          /\ Reader(Other(s), o, fin, p)
          /\ UNCHANGED csent
  /\ UNCHANGED <<ty, started, stopped, frame, want, grace, stall, told, dead>>
MPut(s) ==
  \/ Put(s, 8, TRUE, << >>) /\ Same /\ Tell([o |-> "step"])
  \/ (cur[s].on \/ queue[s] # << >>) /\
     LET p == IF cur[s].on THEN cur[s].p ELSE queue[s][1]
         d == IF cur[s].on THEN Len(cur[s].done) ELSE 0
         rest == SubSeq(p, d + 1, Len(p)) IN
     \E k \in Split(rest) :
       /\ Put(s, IF cur[s].on THEN 0 ELSE ty[s], k = Len(rest), SubSeq(rest, 1, k))
       /\ Same /\ Tell([o |-> "step"])
MGot(s) ==
  /\ started[s] /\ ~stopped[s] /\ due[s] # << >>
  /\ LET d == due[s][1] IN
     /\ d.k = "close" => MayTell(s)
     /\ GotEffect(s, d.k)
     /\ got' = Upd(got, s, Append(got[s], d))
  /\ UNCHANGED <<handed, nraw>> /\ Tell([o |-> "step"])

Next == \/ \E s \in Eps : MSend(s) \/ MStart(s) \/ MClose(s) \/ MStop(s) \/ MPut(s) \/ MGot(s)
        \/ MRaw \/ MCut
Internal == \E s \in Eps : MPut(s) \/ MGot(s)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Internal)
View == <<vars, handed, got, nraw>>

\* everything that was or will be delivered to a side
All(s) == SelectSeq(got[s], LAMBDA x : x.k # "close") \o due[s]   \* a close stays at the head of due
Msgs(q) == LET m == SelectSeq(q, LAMBDA x : x.k = "msg") IN [i \in 1..Len(m) |-> m[i].p]
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x

Faithful == \A s \in Eps : IsPrefixOf(Msgs(All(Other(s))), handed[s])          \* C09: once, in order, intact
NothingBeforeStart == \A s \in Eps : ~started[s] => Msgs(All(Other(s))) = << >> /\ csent[s] = 0
ToldOnce == \A s \in Eps : told[s] <= 1
ToldWhenBoth == \A s \in Eps : told[s] = 1 => csent[s] = 2 /\ CloseIn(s)
CloseLast == \A s \in Sides : \A i \in DOMAIN All(s) : All(s)[i].k # "msg" => i = Len(All(s))   \* C10: nothing after the end
SilentAfterClose == [][\A s \in Eps : csent[s] = 2 => cur'[s] = cur[s] /\ csent'[s] = 2 /\
                        Len(Msgs(All(Other(s)))') = Len(Msgs(All(Other(s))))]_mvars
SilentAfterStop == [][\A s \in Eps : stopped[s] => got'[s] = got[s]]_mvars
Quiet == ~ENABLED Internal
\* when nothing more can happen by itself, everything owed has happened
Owed == Quiet => \A s \in Eps : SentAll(s) /\ ReadAll(s) /\ Closed(s)

Abs == <<started, stopped, queue, cur, want, csent, told, acc, ended, due, handed, got, nraw>>
Edge == Edges => PrintT(<<"EDGE", ToJson(Abs), ToJson(op'), ToJson(Abs')>>)
=============================================================================
