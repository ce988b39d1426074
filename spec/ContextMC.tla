------------------------------ MODULE ContextMC ------------------------------
(* Exhaustive exploration of Context over scenarios: one push (or look) with   *)
(* every answer of the stores, and one further push nested in any one hook.    *)
EXTENDS Context, Json

CONSTANTS MaxMarks,
          AnyOrder    \* TRUE: every order the spec allows (few scenarios);
                      \* FALSE: one order, every scenario

VARIABLES scen, log, nested
vars == <<cfg, stack, shown, scen, log, nested>>

PT == {"p0", "p1"}
TheCfg == [nprod |-> 2, ncons |-> 3, obs |-> {2, 4},
           owner |-> ("p0" :> 0 @@ "p1" :> 1),
           listen |-> ("p0" :> {"p1"} @@ "p1" :> {}),
           kind |-> ("p0" :> "mock" @@ "p1" :> "mock")]

Msg(k, pt, id) == [kind |-> k, pt |-> pt, a |-> 1, b |-> IF k = "up_create_nokey" THEN 0 ELSE id,
                   val |-> IF k \in {"up_read", "up_delete", "down_delete"} THEN "none" ELSE "v1",
                   uid |-> "none", conf |-> "none"]
MsgKinds == {"up_create", "up_create_nokey", "up_read", "up_update", "up_delete",
             "down_create", "down_read", "down_update", "down_delete"}
Outer == {Msg(k, pt, 1) : k \in MsgKinds, pt \in PT}
Inner == {Msg(k, pt, 2) : k \in {"up_create", "up_create_nokey", "up_read", "down_update", "down_delete"}, pt \in PT}
           \cup {Msg("up_update", "p0", 1)}
Hooks == {[h |-> "up", i |-> 0], [h |-> "up", i |-> 1], [h |-> "down", i |-> 2],
          [h |-> "down", i |-> 3], [h |-> "down", i |-> 4],
          [h |-> "notify", i |-> 2], [h |-> "notify", i |-> 4]}
NoHook == [h |-> "none", i |-> 0]

\* which answers matter for a message
Answers(m) ==
  [changed : IF m.kind \in {"up_read", "up_create_nokey"} THEN {FALSE} ELSE BOOLEAN,
   status  : IF m.kind = "up_read" THEN {"trigger", "unresolved", "v7"} ELSE {"trigger"},
   marks   : IF m.pt = "p0" /\ m.kind # "up_create_nokey" THEN 0..MaxMarks ELSE {0}]
Scens == UNION {[m : {m}, ans : Answers(m), at : Hooks \cup {NoHook}, m2 : Inner] : m \in Outer}
Ans2(m) == [changed |-> m.kind \in {"down_update", "up_create"}, status |-> "trigger", marks |-> 0]
Canon(s) ==
  /\ s.at = NoHook => s.m2 = Msg("up_read", "p1", 2)
  /\ AnyOrder /\ s.at # NoHook => s.m2 \in {Msg("up_create", "p0", 2), Msg("down_update", "p1", 2)}
                                   /\ s.ans.marks <= 1 /\ s.at.i \in {0, 2}
                                   /\ s.m.kind \in {"up_create", "down_update", "down_read", "up_read"}

MarkPaths(n) == [i \in 1..n |-> [pt |-> "p1", a |-> 5, b |-> i]]

Init == /\ cfg = TheCfg /\ stack = << >> /\ log = << >> /\ nested = FALSE
        /\ scen \in {s \in Scens : Canon(s)}
        /\ shown = (PathOf(scen.m) :> scen.ans.status)

Depth == Len(stack)
Tag(e) == log' = Append(log, [e EXCEPT !.d = Depth])
LogE(name, actor) == log' = Append(log, [e |-> name, i |-> actor, d |-> Depth,
                                         out |-> IF Depth = 0 THEN scen.m ELSE Top.out])
CurAns == IF Depth = 1 THEN scen.ans ELSE Ans2(scen.m2)
CanNest == ~ nested /\ Depth = 1 /\ scen.at # NoHook /\ log # << >>
           /\ log[Len(log)].e = scen.at.h /\ log[Len(log)].i = scen.at.i
Start == log = << >> /\ Begin(scen.m) /\ LogE("begin", 0) /\ UNCHANGED <<scen, nested>>
Nest == CanNest /\ Begin(scen.m2) /\ LogE("begin", 0) /\ nested' = TRUE /\ UNCHANGED scen
DoApply == Depth > 0 /\ Apply(Top.m, CurAns.changed) /\ LogE("apply", 0) /\ UNCHANGED <<scen, nested>>
DoDeliver == \E i \in 0..4 : Depth > 0 /\ Deliver(i, Top.out)
               /\ LogE(IF i < cfg.nprod THEN "up" ELSE "down", i) /\ UNCHANGED <<scen, nested>>
DoNotify == \E i \in cfg.obs :
   /\ Depth > 0
   /\ AnyOrder \/ (Top.deliver = << >> /\ \A j \in cfg.obs : j < i =>
                     j \notin Top.notify /\ \A x \in DOMAIN Top.marks : Top.marks[x][2] # j)
   /\ \/ Notify(i, PathOf(Top.m))
      \/ \E j \in DOMAIN Top.marks : (AnyOrder \/ \A x \in DOMAIN Top.marks : Top.marks[x][2] = i => j <= x) /\ Notify(i, Top.marks[j][1])
   /\ LogE("notify", i) /\ UNCHANGED <<scen, nested>>
Calm == AnyOrder \/ (Top.notify = {} /\ Top.marks = << >> /\ Top.deliver = << >>)
DoForeign == \E pt \in PT : Depth > 0 /\ Calm /\ Foreign(pt, Top.m, MarkPaths(CurAns.marks))
               /\ LogE("foreign", 0) /\ UNCHANGED <<scen, nested>>
DoDone == Done /\ LogE("done", 0) /\ UNCHANGED <<scen, nested>>
MustNest == CanNest
Next == \/ Nest
        \/ ~ MustNest /\ (Start \/ DoApply \/ DoDeliver \/ DoNotify \/ DoForeign \/ DoDone)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The claims, restated over the log of a finished top-level push.             *)
Finished == log # << >> /\ stack = << >>
\* (lemma) position-wise, the events of the outer push
Outerlog == SelectSeq(log, LAMBDA e : e.d = 1 /\ e.e \notin {"begin", "done"})
Got(name, i) == Cardinality({k \in DOMAIN Outerlog : Outerlog[k].e = name /\ Outerlog[k].i = i})
IsAnswered == scen.m.kind = "up_read" /\ scen.ans.status # "trigger"
Routing ==
  Finished =>
    /\ \A i \in 0..1 : Got("up", i) =
         IF IsUp(scen.m) /\ ~ IsAnswered /\ cfg.owner[scen.m.pt] = i THEN 1 ELSE 0
    /\ \A i \in 2..4 : Got("down", i) =
         IF ~ IsUp(scen.m) \/ (IsAnswered /\ scen.ans.status = "v7") THEN 1 ELSE 0
    /\ \A k \in DOMAIN Outerlog : Outerlog[k].e \in {"up", "down"} /\ ~ IsAnswered => Outerlog[k].out = scen.m
    /\ \A j, k \in DOMAIN Outerlog : j < k /\ Outerlog[j].e = "down" /\ Outerlog[k].e = "down"
          => Outerlog[j].i < Outerlog[k].i
AppliedFirst ==
  \A k \in DOMAIN Outerlog : Outerlog[k].e \in {"up", "down", "notify", "foreign"} /\ scen.m.kind # "up_create_nokey"
    => \E j \in 1..(k-1) : Outerlog[j].e = "apply"
Notified ==
  Finished => \A i \in cfg.obs : Got("notify", i) =
     (IF scen.ans.changed /\ scen.m.kind \notin {"up_read", "up_create_nokey"} THEN 1 ELSE 0) + scen.ans.marks
AppliedOnce == Finished /\ scen.m.kind # "up_create_nokey" => Got("apply", 0) = 1
ListenersOnce == Finished => Got("foreign", 0) =
     IF scen.m.pt = "p0" /\ scen.m.kind # "up_create_nokey" THEN 1 ELSE 0

View == <<cfg, stack, shown, scen, nested, log>>
Case == TLCGet("level") > 1 \/ PrintT(<<"CASE", ToJson(scen)>>)
=============================================================================
