---------------------------- MODULE ContextTrace ----------------------------
EXTENDS Context, TraceLib

tvars == <<l, cfg, stack, shown>>
TraceInit == l = 1 /\ stack = << >> /\ shown = << >> /\ cfg = << >>

TReset ==
  /\ IsEvent("reset") /\ stack = << >>
  /\ cfg' = [nprod |-> E.cfg.nprod, ncons |-> E.cfg.ncons, obs |-> Range(E.cfg.obs),
             owner |-> E.cfg.owner, kind |-> E.cfg.kind,
             listen |-> [pt \in DOMAIN E.cfg.listen |-> Range(E.cfg.listen[pt])]]
  /\ stack' = << >> /\ shown' = << >>
TSet    == IsEvent("set") /\ SetStatus(E.p, E.s)
TPush   == IsEvent("push") /\ Begin(E.m)
TLook   == IsEvent("look") /\ BeginLook(E.p)
TDone   == IsEvent("done") /\ Done
TShown  == /\ IsEvent("shown")
           /\ IF Focus = "C03" THEN Shows(E.p, E.s)
                               ELSE \E s \in {E.s, "unresolved", Status(E.p)} : Shows(E.p, s)
TDeliver == /\ IsEvent("up") \/ IsEvent("down")
            /\ (E.ev = "up") = (E.i < cfg.nprod)
            /\ IF WithDeliver THEN Deliver(E.i, E.m)
               ELSE stack # << >> /\ ~ Top.apply /\ UNCHANGED cvars
TApply   == IsEvent("apply") /\ IF WithApply THEN Apply(E.m, E.changed) ELSE UNCHANGED cvars
TNotify  == IsEvent("notify") /\ IF WithApply THEN Notify(E.i, E.p) ELSE UNCHANGED cvars
TForeign == IsEvent("foreign") /\ IF WithApply THEN Foreign(E.pt, E.m, E.paths) ELSE UNCHANGED cvars
TraceNext == TReset \/ TSet \/ TPush \/ TLook \/ TDone \/ TShown \/ TDeliver \/ TApply \/ TNotify \/ TForeign
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
