---------------------------- MODULE WsConnTrace ----------------------------
(* Recorded executions of real endpoints against WsConn.  Check names the   *)
(* properties whose rules are enforced; the state follows in any case.      *)
EXTENDS WsConn, TraceLib
CONSTANT Check
tvars == <<l, vars>>

K(c, cond) == c \in Check => cond

TraceInit ==
  /\ l = 1 /\ ty = [s \in Sides |-> 0]
  /\ started = [s \in Sides |-> FALSE] /\ stopped = [s \in Sides |-> FALSE]
  /\ queue = [s \in Sides |-> << >>] /\ cur = [s \in Sides |-> Idle] /\ frame = [s \in Sides |-> NoFrame]
  /\ want = [s \in Sides |-> FALSE] /\ grace = [s \in Sides |-> FALSE] /\ stall = [s \in Sides |-> FALSE]
  /\ csent = [s \in Sides |-> 0] /\ told = [s \in Sides |-> 0]
  /\ acc = [s \in Sides |-> << >>] /\ ended = [s \in Sides |-> FALSE] /\ due = [s \in Sides |-> << >>]
  /\ dead = FALSE

TReset == IsEvent("reset") /\ Reset([s \in Sides |-> E.ty[s]])
TDo ==
  /\ IsEvent("do")
  /\ CASE E.o = "send"  -> DoSend(E.s, E.p)
       [] E.o = "start" -> IF stopped[E.s] THEN UNCHANGED vars ELSE DoStart(E.s)
       [] E.o = "close" -> DoClose(E.s)
       [] E.o = "stop"  -> DoStop(E.s)
       [] E.o = "drop"  -> UNCHANGED vars
TCut  == IsEvent("cut") /\ Cut(E.s)
TKill == IsEvent("kill") /\ Kill
TStall == IsEvent("stall") /\ Stall(E.s)
TBegin ==
  /\ IsEvent("fb")
  /\ ty[E.s] # 0 =>
       /\ K("C09", Lost(E.s) \/ (BeginMsgRule(E.s, E.op) /\ ~E.rsv /\ (E.op = 8 \/ IsData(E.op))))
       /\ K("C11", Lost(E.s) \/ BeginCloseRule(E.s, E.op, E.fin))
  /\ BeginEffect(E.s, E.op, E.fin)
TEnd ==
  /\ IsEvent("fr")
  /\ ty[E.s] # 0 => K("C09", EndMsgRule(E.s, E.op, E.fin, E.p))
  /\ EndEffect(E.s, E.op, E.fin, E.p)
TGot ==
  /\ IsEvent("got")
  /\ K("C11", ~stopped[E.s])
  /\ CASE E.k = "ready" -> UNCHANGED vars
       [] E.k \in {"msg", "bad", "err"} ->
            /\ K("C10", stopped[E.s] \/ Deliverable(E.s, E.k, E.p) \/ (Lost(E.s) /\ E.k = "err"))
            /\ K("C09", E.k = "msg" => stopped[E.s] \/ Deliverable(E.s, E.k, E.p))
            /\ GotEffect(E.s, E.k)
       [] E.k = "close" ->
            /\ K("C11", MayTell(E.s) \/ (Lost(E.s) /\ told[E.s] = 0))
            /\ GotEffect(E.s, E.k)
TSettled ==
  /\ IsEvent("settled")
  /\ \A s \in Sides :
       /\ K("C09", SentAll(s) /\ ReadAll(s))
       /\ K("C10", ReadAll(s))
       /\ K("C11", Closed(s))
  /\ UNCHANGED vars
TraceNext == TReset \/ TDo \/ TCut \/ TKill \/ TStall \/ TBegin \/ TEnd \/ TGot \/ TSettled
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
