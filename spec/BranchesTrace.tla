--------------------------- MODULE BranchesTrace ---------------------------
EXTENDS Branches, TraceLib
VARIABLE t
TraceInit == l = 1 /\ t = None("-")
TReset == IsEvent("reset") /\ t' = E.t /\ E.now = t'
TSet == IsEvent("set") /\ t' = E.t /\ E.now = t'
(* the value at a path, and whether its type is another one                    *)
TPath == IsEvent("path") /\ UNCHANGED t
           /\ E.got = PathOf(t, E.path)
           /\ \A i \in DOMAIN E.is : E.is[i][2] = (PathOf(t, E.path) # << >> /\ TypeOf(PathOf(t, E.path)[1]) = E.is[i][1])
TParams == IsEvent("params") /\ UNCHANGED t /\ E.got = Params(t, E.ds)
TBranch == IsEvent("branch") /\ UNCHANGED t
             /\ LET i == Selected(t, E.d) IN
                /\ E.index = i
                /\ E.called = (IF i = 0 THEN << >> ELSE <<i>>)
                /\ E.again = (IF i = 0 THEN << >> ELSE <<i>>)
                /\ E.got = (IF i = 0 THEN << >> ELSE Param(t, E.d.ws[i][2]))
(* a path as a promise: resolved with the value, or rejected with the first    *)
(* value that is not of the type                                               *)
RECURSIVE Walk2(_, _)
Walk2(x, ns) == IF ns = << >> THEN <<"resolved", x>>
                ELSE LET ks == Params(x, Head(ns).ks)
                         y == Look(x, [i \in DOMAIN ks[1] |-> KeyText(ks[1][i])]) IN
                     IF Head(ns).m # "" /\ TypeOf(y) # Head(ns).m THEN <<"rejected", y>> ELSE Walk2(y, Tail(ns))
TPromise == IsEvent("promise") /\ UNCHANGED t /\ E.got = <<Walk2(t, E.path)>>
TraceNext == TReset \/ TSet \/ TPath \/ TParams \/ TBranch \/ TPromise
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t>>
=============================================================================
