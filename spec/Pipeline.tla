------------------------------ MODULE Pipeline ------------------------------
(* Pipelines of stages (nbdl::pipe, run_async, run_async_loop, run_sync):      *)
(* which stage runs next and with what, where a rejection goes, and how long   *)
(* the things captured by the stages live.                                     *)
(*                                                                             *)
(* A shape is the sequence of its stages, nested pipes unfolded; a stage is    *)
(* [k: kind, errs: errors it may reject with, acc: errors it accepts].         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE runs     \* run -> [shape, loop, at, mode, args, err, made]

(* tokens: what a stage passes on identifies the stage and what it was given   *)
Mix(base, i, k) == (base * 31 + i * 7 + k) % 10007
Base(args) == IF args = << >> THEN 1 ELSE args[1]
HeldValue(i) == 5000 + i
Elems(s) == {s[i] : i \in DOMAIN s}

----------------------------------------------------------------------------
(* The next stage with user code, from position i on; handlers are passed by,  *)
(* a hold replaces what is passed.                                             *)
RECURSIVE Go(_, _, _, _)
Go(sh, loop, i, args) ==
  IF i > Len(sh) THEN IF loop THEN Go(sh, loop, 1, args)
                      ELSE [at |-> 0, mode |-> "ended", args |-> << >>]
  ELSE IF sh[i].k = "catch" THEN Go(sh, loop, i + 1, args)
  ELSE IF sh[i].k = "hold" THEN Go(sh, loop, i + 1, <<HeldValue(i)>>)
  ELSE [at |-> i, mode |-> "stage", args |-> args]

Accepts(st, e) == st.k = "catch" /\ (e \in Elems(st.acc) \/ "all" \in Elems(st.acc))
HandlersAfter(sh, i, e) == {j \in (i+1)..Len(sh) : Accepts(sh[j], e)}
Handler(sh, i, e) == CHOOSE j \in HandlersAfter(sh, i, e) : \A h \in HandlersAfter(sh, i, e) : j <= h

Put(r, x) == runs' = [runs EXCEPT ![r] = x]
MoveOn(r, g) == [runs[r] EXCEPT !.at = g.at, !.mode = g.mode, !.args = g.args]
Next1(r, i, args) == MoveOn(r, Go(runs[r].shape, runs[r].loop, i + 1, args))

Begin(shape, loop, args) ==
  LET g == Go(shape, loop, 1, args) IN
  [shape |-> shape, loop |-> loop, at |-> g.at, mode |-> g.mode, args |-> g.args,
   err |-> <<"none", 0>>]

Start(r, shape, loop, args) ==
  /\ r \notin DOMAIN runs
  /\ runs' = runs @@ (r :> Begin(shape, loop, args))

(* a stage is given the result of the previous one                             *)
Stage(r, i, args) ==
  LET x == runs[r] IN
  /\ x.mode = "stage" /\ i = x.at /\ args = x.args
  /\ Put(r, CASE x.shape[i].k \in {"fn", "ref"} -> Next1(r, i, <<Mix(Base(args), i, 1)>>)
              [] x.shape[i].k = "void" -> Next1(r, i, << >>)
              [] x.shape[i].k = "tap" -> Next1(r, i, args)
              [] x.shape[i].k \in {"promise", "try"} -> [x EXCEPT !.mode = "act"]
              [] x.shape[i].k = "lazy" -> [x EXCEPT !.mode = "wait"])

RejectedTo(r, e, tok) ==
  LET x == runs[r] IN
  [x EXCEPT !.mode = "handle", !.at = Handler(x.shape, x.at, e), !.err = <<e, tok>>]

Hows(st) ==
  CASE st.k = "try" -> {[how |-> "resolve", n |-> 1, e |-> ""], [how |-> "throw", n |-> 0, e |-> "exc"],
                        [how |-> "throwx", n |-> 0, e |-> "exc"]}
    [] st.k = "lazy" -> {[how |-> "resolve", n |-> 1, e |-> ""]}
    [] OTHER -> {[how |-> "resolve", n |-> n, e |-> ""] : n \in 0..2}
                \cup {[how |-> "terminate", n |-> 0, e |-> ""]}
                \cup {[how |-> "reject", n |-> 0, e |-> e] : e \in Elems(st.errs)}
Defer == [how |-> "defer", n |-> 0, e |-> ""]

Outcome(r, o) ==
  LET x == runs[r]
      i == x.at
  IN Put(r, CASE o.how = "resolve" ->
                   Next1(r, i, [k \in 1..o.n |-> Mix(Base(x.args), i, k)])
              [] o.how = "terminate" -> [x EXCEPT !.mode = "ended", !.args = << >>]
              [] o.how = "throwx" -> RejectedTo(r, "exc", 0)
              [] o.how \in {"reject", "throw"} -> RejectedTo(r, o.e, Mix(Base(x.args), i, 9))
              [] o.how = "defer" -> [x EXCEPT !.mode = "wait"])

(* the stage settles before it returns, or puts it off                         *)
Act(r, o) ==
  /\ runs[r].mode = "act"
  /\ LET st == runs[r].shape[runs[r].at] IN o \in Hows(st) \cup (IF st.k = "try" THEN {} ELSE {Defer})
  /\ Outcome(r, o)

(* it settles later                                                            *)
Complete(r, o) ==
  /\ runs[r].mode = "wait"
  /\ o \in Hows(runs[r].shape[runs[r].at])
  /\ Outcome(r, o)

Handle(r, i, e, tok) ==
  LET x == runs[r] IN
  /\ x.mode = "handle" /\ i = x.at /\ <<e, tok>> = x.err
  /\ Put(r, [x EXCEPT !.mode = "ended", !.args = << >>])

Ended(r) == runs[r].mode = "ended"
=============================================================================
