----------------------------- MODULE PipelineMC -----------------------------
(* Every outcome of every stage of the given shapes (the ones compiled into    *)
(* the harness), one run at a time, or several runs side by side.              *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS NRuns, MaxSteps, Edges
ShapesIn == JsonDeserialize(IOEnv.SHAPES)
VARIABLES op, log, steps
vars == <<runs, op, log, steps>>

Init == runs = << >> /\ op = [o |-> "none"] /\ log = << >> /\ steps = 0
Live == {r \in DOMAIN runs : ~ Ended(r)}
Busy == {r \in DOMAIN runs : runs[r].mode \in {"stage", "act", "handle"}}
Put2(e) == log' = Append(log, e)
DoStart == \E s \in DOMAIN ShapesIn, n \in 0..1 :
   /\ Cardinality(DOMAIN runs) < NRuns /\ Busy = {}
   /\ LET r == Cardinality(DOMAIN runs) + 1
          args == [k \in 1..n |-> 100 + k] IN
      /\ Start(r, ShapesIn[s].flat, ShapesIn[s].loop, args)
      /\ op' = [o |-> "start", run |-> r, shape |-> s, n |-> n]
      /\ log' = log
DoStage == \E r \in DOMAIN runs : Stage(r, runs[r].at, runs[r].args) /\ op' = [o |-> "stage"]
              /\ Put2([r |-> r, i |-> runs[r].at, e |-> "stage"])
DoAct == \E r \in DOMAIN runs :
   \/ runs[r].mode = "act" /\ \E o \in Hows(runs[r].shape[runs[r].at]) \cup {Defer} :
        Act(r, o) /\ op' = [o |-> "act", run |-> r, i |-> runs[r].at, how |-> o] /\ Put2([r |-> r, i |-> runs[r].at, e |-> o.how])
DoComplete == Busy = {} /\ \E r \in DOMAIN runs :
   \/ runs[r].mode = "wait" /\ \E o \in Hows(runs[r].shape[runs[r].at]) :
        Complete(r, o) /\ op' = [o |-> "complete", run |-> r, i |-> runs[r].at, how |-> o] /\ Put2([r |-> r, i |-> runs[r].at, e |-> o.how])
DoHandle == \E r \in DOMAIN runs : runs[r].mode = "handle" /\ Handle(r, runs[r].at, runs[r].err[1], runs[r].err[2])
              /\ op' = [o |-> "handle"] /\ Put2([r |-> r, i |-> runs[r].at, e |-> "handler"])
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ (DoStart \/ DoStage \/ DoAct \/ DoComplete \/ DoHandle)
Spec == Init /\ [][Next]_vars
View == <<runs, steps>>
Abs == [r \in DOMAIN runs |-> <<runs[r].shape, runs[r].at, runs[r].mode, runs[r].args, runs[r].err>>]
ViewE == runs

----------------------------------------------------------------------------
Ev(r) == SelectSeq(log, LAMBDA x : x.r = r)
Calls(r) == SelectSeq(Ev(r), LAMBDA x : x.e = "stage")
\* stages run in order, each once (per turn of a loop)
InOrder == \A r \in DOMAIN runs : LET c == Calls(r) IN
   \A j \in 1..(Len(c) - 1) :
       IF runs[r].loop THEN c[j].i < c[j+1].i \/ ~ \E q \in (c[j].i + 1)..Len(runs[r].shape) : runs[r].shape[q].k \notin {"catch", "hold"}
       ELSE c[j].i < c[j+1].i
\* at most one handler runs, as the last thing, and it is the first later one that accepts
OneHandler == \A r \in DOMAIN runs : LET v == Ev(r) IN
   \A j \in DOMAIN v : v[j].e = "handler" =>
      /\ j = Len(v) /\ j > 1 /\ v[j-1].e \in {"reject", "throw", "throwx"} /\ v[j-1].i < v[j].i
      /\ Ended(r)
      /\ \A q \in (v[j-1].i + 1)..(v[j].i - 1) : ~ Accepts(runs[r].shape[q], runs[r].err[1])
NothingAfterEnd == \A r \in DOMAIN runs : LET v == Ev(r) IN
   \A j \in DOMAIN v : v[j].e = "terminate" => j = Len(v)
NoHandlerWithoutRejection == \A r \in DOMAIN runs : LET v == Ev(r) IN
   (\A j \in DOMAIN v : v[j].e \notin {"reject", "throw", "throwx"}) => \A j \in DOMAIN v : v[j].e # "handler"
EveryStageRan == \A r \in DOMAIN runs : LET v == Ev(r) IN
   Ended(r) /\ ~ runs[r].loop /\ (\A j \in DOMAIN v : v[j].e \notin {"reject", "throw", "throwx", "terminate"})
     => {c.i : c \in Elems(Calls(r))} = {q \in DOMAIN runs[r].shape : runs[r].shape[q].k \notin {"catch", "hold"}}
Edge == Edges => PrintT(<<"EDGE", ToJson(Abs), ToJson(op'), ToJson([r \in DOMAIN runs' |-> <<runs'[r].shape, runs'[r].at, runs'[r].mode, runs'[r].args, runs'[r].err>>])>>)
=============================================================================
