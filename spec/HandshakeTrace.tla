--------------------------- MODULE HandshakeTrace ---------------------------
EXTENDS Handshake, TraceLib
tvars == <<l, hvars>>
Sides == {"a", "b"}
Const(x) == [s \in Sides |-> x]
TraceInit ==
  /\ l = 1 /\ role = Const("raw") /\ info = Const([origin |-> << >>, token |-> << >>])
  /\ inb = Const(<< >>) /\ outb = Const(<< >>) /\ over = Const("none") /\ rep = Const("none")
TReset ==
  /\ IsEvent("reset")
  /\ role' = E.role /\ info' = Const([origin |-> E.origin, token |-> E.token])
  /\ inb' = Const(<< >>) /\ outb' = Const(<< >>) /\ over' = Const("none") /\ rep' = Const("none")
Other(s) == IF s = "a" THEN "b" ELSE "a"
(* bytes written by the raw side, or by an endpoint (then the other side receives them) *)
TIn == IsEvent("in") /\ Input("a", E.b)
TOut ==
  /\ IsEvent("out") /\ MayWrite(E.s, E.b)
  /\ outb' = [outb EXCEPT ![E.s] = @ \o E.b]
  /\ inb' = [inb EXCEPT ![Other(E.s)] = @ \o E.b]
  /\ UNCHANGED <<role, info, over, rep>>
TEof == IsEvent("eof") /\ Over("a", "eof")
TKill == IsEvent("kill") /\ Over("a", "reset")
TGot == IsEvent("got") /\ Report(E.s, E.k, E.token)
TSettled == IsEvent("settled") /\ (\A s \in Sides : Settled(s)) /\ UNCHANGED hvars
(* the cookie reader on its own                                               *)
TToken == IsEvent("token") /\ E.token \in Tokens(E.cookies) /\ UNCHANGED hvars
TraceNext == TReset \/ TIn \/ TOut \/ TEof \/ TKill \/ TGot \/ TSettled \/ TToken
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
