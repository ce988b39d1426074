----------------------------- MODULE BranchesMC -----------------------------
(* The laws of descriptions, for every structure of the store shapes in the    *)
(* file PROGRAMS and each of the descriptions over them                        *)
EXTENDS Branches, IOUtils
VARIABLES prog, term, phase
vars == <<prog, term, phase>>
(* [shape, ds]                                                                 *)
Programs == JsonDeserialize(IOEnv.PROGRAMS)
Init == /\ prog \in DOMAIN Programs
        /\ term \in Terms(Programs[prog].shape)
        /\ phase = "start"
Next == phase = "start" /\ phase' = "end" /\ UNCHANGED <<prog, term>>
Spec == Init /\ [][Next]_vars
Ds == {Programs[prog].ds[i] : i \in DOMAIN Programs[prog].ds}
RECURSIVE Below(_)
Below(d) == {d} \cup UNION {Below(d.ps[i]) : i \in DOMAIN d.ps} \cup UNION {Below(d.ws[i][2]) : i \in DOMAIN d.ws}
All == UNION {Below(d) : d \in Ds}
Branching == {d \in All : d.k \in {"match", "cond"}}
NoCall == << >>
Ok(d, w) == LET v == PathOf(term, d.path)[1] IN
            IF d.k = "match" THEN w[1] = "" \/ TypeOf(v) = w[1] ELSE Holds(w[1], v)

(* the branch taken is one that is right, and no earlier one is                *)
FirstWins == \A d \in Branching : LET i == Selected(term, d) IN
  /\ i # 0 => Ok(d, d.ws[i]) /\ \A j \in 1..(i - 1) : ~ Ok(d, d.ws[j])
  /\ i = 0 => PathOf(term, d.path) = NoCall \/ \A j \in DOMAIN d.ws : ~ Ok(d, d.ws[j])
(* branches that come after it are of no consequence                           *)
LaterIgnored == \A d \in Branching : LET i == Selected(term, d) IN
  i # 0 => Param(term, [d EXCEPT !.ws = SubSeq(d.ws, 1, i)]) = Param(term, d)
(* a branch gives what its body gives                                          *)
BodyTaken == \A d \in Branching : LET i == Selected(term, d) IN
  Param(term, d) = (IF i = 0 THEN NoCall ELSE Param(term, d.ws[i][2]))
(* everything or nothing: one parameter that gives nothing, and no call is made*)
Together == LET ds == Programs[prog].ds IN
  /\ (Params(term, ds) = NoCall) = (\E i \in DOMAIN ds : Param(term, ds[i]) = NoCall)
  /\ \A n \in 0..Len(ds) :
       LET a == Params(term, SubSeq(ds, 1, n)) b == Params(term, SubSeq(ds, n + 1, Len(ds))) IN
       Params(term, ds) = (IF a = NoCall \/ b = NoCall THEN NoCall ELSE <<a[1] \o b[1]>>)
(* concatenation leaves no trace                                               *)
Flat == \A d \in All : d.k = "concat" => Param(term, d) = Params(term, d.ps)
(* one value, unless concatenated                                              *)
One == \A d \in All : (d.k \in {"lit", "path", "at", "apply"} /\ Param(term, d) # NoCall) => Len(Param(term, d)[1]) = 1
(* a path is walked node by node, and a type asked for is the type given       *)
NodeByNode == \A d \in All : d.path # << >> =>
  LET ns == d.path n == Len(ns) v == PathOf(term, ns) IN
  /\ (v # NoCall /\ ns[n].m # "") => TypeOf(v[1]) = ns[n].m
  /\ LET any == PathOf(term, SubSeq(ns, 1, n - 1) \o <<[ns[n] EXCEPT !.m = ""]>>) IN
     /\ any = NoCall => v = NoCall
     /\ v # NoCall => v = any
  /\ LET h == PathOf(term, SubSeq(ns, 1, n - 1)) IN
     v = (IF h = NoCall THEN NoCall ELSE PathOf(h[1], <<ns[n]>>))
Cases == phase = "end" => PrintT(<<"CASE", ToJson(<<prog, term>>)>>)
=============================================================================
