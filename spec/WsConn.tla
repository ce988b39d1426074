------------------------------- MODULE WsConn -------------------------------
(***************************************************************************)
(* A websocket connection between two sides "a" and "b".  A side is either *)
(* one of the library's endpoints (ty[s] = 1: sends text, 2: binary) or a  *)
(* raw peer (ty[s] = 0) that may put any frame on the wire.                *)
(*                                                                         *)
(* A payload is a normalized list of runs <<byte, count>>.                 *)
(* A frame is put on the wire in two steps: FrameBegin (its first byte,    *)
(* which carries opcode and final marker) and FrameEnd (its last byte).    *)
(* What a side must deliver to its user is computed from the frames that   *)
(* were put on the wire towards it (due), by the plain rules of the        *)
(* protocol; delivering is then a separate step of the endpoint.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  ty,        \* kind of each side
  started,   \* messaging was started
  stopped,   \* stop was called
  queue,     \* messages handed over, not begun yet
  cur,       \* the message being put on the wire
  frame,     \* the frame being put on the wire
  want,      \* the user asked for a close
  grace,     \* one message may still begin: it was being written when close was asked for
  stall,     \* the last write found no room
  csent,     \* 0 nothing, 1 close frame begun, 2 close frame complete
  told,      \* how often the close was reported
  acc, ended,\* reader: collected fragments; nothing more will be understood
  due,       \* what is to be delivered to the user of this side
  dead       \* the connection was reset: only safety remains

vars == <<ty, started, stopped, queue, cur, frame, want, grace, stall, csent, told, acc, ended, due, dead>>

Sides == {"a", "b"}
Other(s) == IF s = "a" THEN "b" ELSE "a"
Idle == [on |-> FALSE, p |-> << >>, done |-> << >>, n |-> 0]
NoFrame == [on |-> FALSE, op |-> 0, fin |-> FALSE]

Join(x, y) ==
  IF x = << >> THEN y ELSE IF y = << >> THEN x ELSE
  IF x[Len(x)][1] = y[1][1]
  THEN SubSeq(x, 1, Len(x) - 1) \o << <<y[1][1], x[Len(x)][2] + y[1][2]>> >> \o Tail(y)
  ELSE x \o y

\* due items
Msg(p) == [k |-> "msg", p |-> p]
Item(k) == [k |-> k, p |-> << >>]

IsData(op) == op \in {0, 1, 2}
Known(op)  == op \in {0, 1, 2, 8, 9, 10}

Upd(f, s, v) == [f EXCEPT ![s] = v]

CloseIn(s) == due[s] # << >> /\ due[s][1].k = "close"

Reset(kinds) ==
  /\ ty' = kinds
  /\ started' = [s \in Sides |-> FALSE] /\ stopped' = [s \in Sides |-> FALSE]
  /\ queue' = [s \in Sides |-> << >>] /\ cur' = [s \in Sides |-> Idle] /\ frame' = [s \in Sides |-> NoFrame]
  /\ want' = [s \in Sides |-> FALSE] /\ grace' = [s \in Sides |-> FALSE] /\ stall' = [s \in Sides |-> FALSE]
  /\ csent' = [s \in Sides |-> 0] /\ told' = [s \in Sides |-> 0]
  /\ acc' = [s \in Sides |-> << >>] /\ ended' = [s \in Sides |-> FALSE] /\ due' = [s \in Sides |-> << >>]
  /\ dead' = FALSE

(* ------------------------------------------------------------ the user *)
DoSend(s, p) ==
  /\ queue' = Upd(queue, s, Append(queue[s], p))
  /\ UNCHANGED <<ty, started, stopped, cur, frame, want, grace, stall, csent, told, acc, ended, due, dead>>
DoStart(s) ==
  /\ started' = Upd(started, s, TRUE)
  /\ UNCHANGED <<ty, stopped, queue, cur, frame, want, grace, stall, csent, told, acc, ended, due, dead>>
DoClose(s) ==
  /\ want' = Upd(want, s, TRUE)
  /\ grace' = Upd(grace, s, IF want[s] THEN grace[s] ELSE stall[s] /\ ~cur[s].on)
  /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, stall, csent, told, acc, ended, due, dead>>
\* the other side sees the end of the stream
EndTowards(t) ==
  /\ ended' = Upd(ended, t, TRUE)
  /\ due' = IF ended[t] THEN due ELSE Upd(due, t, Append(due[t], Item("err")))
DoStop(s) ==
  /\ stopped' = Upd(stopped, s, TRUE)
  /\ EndTowards(Other(s))
  /\ UNCHANGED <<ty, started, queue, cur, frame, want, grace, stall, csent, told, acc, dead>>
\* the raw peer ends its direction
Cut(s) ==
  /\ EndTowards(Other(s))
  /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, want, grace, stall, csent, told, acc, dead>>
Kill ==
  /\ dead' = TRUE
  /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, want, grace, stall, csent, told, acc, ended, due>>
Stall(s) ==
  /\ stall' = Upd(stall, s, TRUE)
  /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, want, grace, csent, told, acc, ended, due, dead>>

(* ------------------------------------------------------------ the wire *)
\* what an endpoint may begin
MayBeginClose(s) == ~cur[s].on /\ (want[s] \/ (started[s] /\ CloseIn(s)))
MayBeginMsg(s)   == ~cur[s].on /\ queue[s] # << >> /\ (want[s] => grace[s])
MayContinue(s)   == cur[s].on

\* an unknown opcode is refused as soon as it is seen
Refuse(t, op) ==
  IF Known(op) \/ ended[t] THEN UNCHANGED <<ended, due>>
  ELSE due' = Upd(due, t, Append(due[t], Item("bad"))) /\ ended' = Upd(ended, t, TRUE)

BeginEffect(s, op, fin) ==
  /\ Refuse(Other(s), op)
  /\ frame' = Upd(frame, s, [on |-> TRUE, op |-> op, fin |-> fin])
  /\ stall' = Upd(stall, s, FALSE)
  /\ csent' = IF op = 8 /\ csent[s] = 0 THEN Upd(csent, s, 1) ELSE csent
  /\ IF ty[s] # 0 /\ op \in {1, 2} /\ ~cur[s].on /\ queue[s] # << >>
     THEN /\ cur' = Upd(cur, s, [on |-> TRUE, p |-> queue[s][1], done |-> << >>, n |-> 0])
          /\ queue' = Upd(queue, s, Tail(queue[s]))
          /\ grace' = Upd(grace, s, FALSE)
     ELSE UNCHANGED <<cur, queue, grace>>
  /\ UNCHANGED <<ty, started, stopped, want, told, acc, dead>>

\* a complete frame reaches the reader of side t
Reader(t, op, fin, p) ==
  IF ended[t] THEN UNCHANGED <<acc, ended, due>>
  ELSE IF IsData(op) THEN
    LET all == Join(acc[t], p) IN
    /\ acc' = Upd(acc, t, IF fin THEN << >> ELSE all)
    /\ due' = IF fin THEN Upd(due, t, Append(due[t], Msg(all))) ELSE due
    /\ UNCHANGED ended
  ELSE IF op = 8 THEN
    /\ due' = Upd(due, t, Append(due[t], Item("close"))) /\ ended' = Upd(ended, t, TRUE) /\ UNCHANGED acc
  ELSE IF Known(op) THEN UNCHANGED <<acc, ended, due>>
  ELSE /\ due' = Upd(due, t, Append(due[t], Item("bad"))) /\ ended' = Upd(ended, t, TRUE) /\ UNCHANGED acc

EndEffect(s, op, fin, p) ==
  /\ frame' = Upd(frame, s, NoFrame)
  /\ stall' = Upd(stall, s, FALSE)
  /\ csent' = IF op = 8 THEN Upd(csent, s, 2) ELSE csent
  /\ cur' = IF IsData(op) /\ cur[s].on
            THEN Upd(cur, s, IF fin THEN Idle
                             ELSE [cur[s] EXCEPT !.done = Join(@, p), !.n = @ + 1])
            ELSE cur
  /\ Reader(Other(s), op, fin, p)
  /\ UNCHANGED <<ty, started, stopped, queue, want, grace, told, dead>>

(* rules for what an endpoint puts on the wire, split by property *)
\* C09: messages, whole, in order, framed by the rules
BeginMsgRule(s, op) ==
  IF op = 8 THEN TRUE
  ELSE IF cur[s].on THEN op = 0
  ELSE op = ty[s] /\ queue[s] # << >>
EndMsgRule(s, op, fin, p) ==
  IF ~IsData(op) THEN TRUE
  ELSE /\ cur[s].on
       /\ fin => Join(cur[s].done, p) = cur[s].p
\* C11: close discipline
BeginCloseRule(s, op, fin) ==
  /\ started[s]
  /\ csent[s] = 0
  /\ IF op = 8 THEN fin /\ MayBeginClose(s)
     ELSE IF cur[s].on THEN TRUE ELSE want[s] => grace[s]

(* ------------------------------------------------------------ delivery *)
Deliverable(s, k, p) ==
  /\ started[s]
  /\ due[s] # << >> /\ due[s][1].k = k /\ due[s][1].p = p
MayTell(s) == told[s] = 0 /\ CloseIn(s) /\ csent[s] = 2

GotEffect(s, k) ==
  /\ IF k \in {"msg", "bad", "err"}
     THEN due' = (IF due[s] # << >> /\ due[s][1].k # "close" THEN Upd(due, s, Tail(due[s])) ELSE due) /\ UNCHANGED told
     ELSE UNCHANGED due /\ told' = Upd(told, s, told[s] + 1)
  /\ UNCHANGED <<ty, started, stopped, queue, cur, frame, want, grace, stall, csent, acc, ended, dead>>

(* ----------------------------------- what must have happened when all is quiet *)
\* the transport may break once the other side stopped or reset it
Lost(s) == dead \/ stopped[Other(s)]
Live(s) == ty[s] # 0 /\ started[s] /\ ~stopped[s] /\ ~Lost(s)
SentAll(s)  == Live(s) => (~cur[s].on /\ (~CloseIn(s) /\ ~want[s] => queue[s] = << >>))
ReadAll(s)  == Live(s) => (due[s] = << >> \/ CloseIn(s))
Closed(s)   == Live(s) => /\ (want[s] \/ CloseIn(s)) => csent[s] = 2
                          /\ (CloseIn(s) /\ csent[s] = 2) => told[s] = 1
=============================================================================
