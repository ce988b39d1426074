---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS Pipeline, TraceLib
CONSTANT Focus     \* "C07" order and routing, "C08" lifetime as well
tvars == <<l, runs>>
TraceInit == l = 1 /\ runs = << >>
O == [how |-> E.how, n |-> E.n, e |-> E.e]
TReset  == IsEvent("reset") /\ (\A r \in DOMAIN runs : Ended(r)) /\ runs' = << >>
TStart  == IsEvent("start") /\ Start(E.run, E.shape, E.loop, E.args)
TStage  == IsEvent("stage") /\ E.run \in DOMAIN runs /\ Stage(E.run, E.i, E.args) /\ (Focus = "C08" => E.alive)
TAct    == IsEvent("act") /\ E.run \in DOMAIN runs /\ Act(E.run, O)
TComplete == IsEvent("complete") /\ E.run \in DOMAIN runs /\ Complete(E.run, O)
THandler == IsEvent("handler") /\ E.run \in DOMAIN runs /\ Handle(E.run, E.i, E.err, E.tok) /\ (Focus = "C08" => E.alive)
(* between the operations of the environment, what every run captured is held   *)
(* exactly once until the run has ended and not at all afterwards               *)
TSettled ==
  /\ IsEvent("settled")
  /\ \A r \in DOMAIN runs : runs[r].mode \in {"wait", "ended"}
  /\ Focus = "C08" => \A k \in DOMAIN E.runs :
        LET x == E.runs[k] IN
        /\ \A j \in DOMAIN x.live : x.live[j] = IF Ended(x.run) THEN 0 ELSE 1
        /\ \A j \in DOMAIN x.made : x.made[j] = IF Ended(x.run) THEN 0 ELSE 1
  /\ UNCHANGED runs
TraceNext == TReset \/ TStart \/ TStage \/ TAct \/ TComplete \/ THandler \/ TSettled
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
