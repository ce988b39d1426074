------------------------------ MODULE EchoTrace ------------------------------
EXTENDS Echo, TraceLib
tvars == <<l, evars>>
TraceInit == l = 1 /\ TraceFarInit /\ stack = << >> /\ shown = << >> /\ cfg = << >> /\ echo = {} /\ given = << >> /\ units = {}
Same == UNCHANGED <<echo, given, units>>
TReset ==
  /\ IsEvent("reset") /\ stack = << >>
  /\ cfg' = [nprod |-> E.cfg.nprod, ncons |-> E.cfg.ncons, obs |-> Range(E.cfg.obs),
             owner |-> E.cfg.owner, kind |-> E.cfg.kind,
             listen |-> [pt \in DOMAIN E.cfg.listen |-> Range(E.cfg.listen[pt])]]
  /\ stack' = << >> /\ shown' = << >>
  /\ echo' = Range(E.cfg.echo) /\ units' = Range(E.cfg.units) /\ given' = [pt \in DOMAIN E.cfg.owner |-> {}]
TSet    == IsEvent("set") /\ SetStatus(E.p, E.s) /\ Same
TPush   == IsEvent("push") /\ Begin(E.m) /\ Same
TLook   == IsEvent("look") /\ BeginLook(E.p) /\ Same
TDone   == IsEvent("done") /\ Done /\ Same
TShown  == IsEvent("shown") /\ Shows(E.p, E.s) /\ Same
TDeliver == /\ IsEvent("up") \/ IsEvent("down")
            /\ (E.ev = "up") = (E.i < cfg.nprod)
            /\ Deliver(E.i, E.m) /\ Same
TApply   == IsEvent("apply") /\ Apply(E.m, E.changed) /\ Same
TNotify  == IsEvent("notify") /\ Notify(E.i, E.p) /\ Same
TForeign == IsEvent("foreign") /\ Foreign(E.pt, E.m, E.paths) /\ Same
(* steps without an event: the key is the one the next event names            *)
Inner == /\ l <= TraceLen /\ UNCHANGED l
         /\ \/ E.ev \in {"down", "apply", "foreign"} /\ Reply(E.m.b)
            \/ E.ev = "notify" /\ Reply(E.p.b)
            \/ Replied
TraceNext == TReset \/ TSet \/ TPush \/ TLook \/ TDone \/ TShown \/ TDeliver \/ TApply \/ TNotify \/ TForeign \/ Inner
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
