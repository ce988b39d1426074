------------------------------ MODULE Branches ------------------------------
(* Descriptions of parameters over a store.  A path is a sequence of nodes     *)
(* [m: the type the value has to be of ("": any), ks: its keys, as             *)
(* descriptions]; a description is                                             *)
(*   [k, s, path, ps, ws]                                                      *)
(*   lit s          a constant                                                 *)
(*   path           the value at the path       at      the same, as a key     *)
(*   apply s ps     what function s gives for the parameters ps                *)
(*   concat ps      the parameters ps, in place                                *)
(*   match ws       the first branch <<type, body>> of the type of the value   *)
(*                  at the path ("" any)                                       *)
(*   cond ws        the first branch <<predicate, body>> that holds of it      *)
(* Results are << >> (no call) or <<x>>.                                       *)
EXTENDS StoreTerms
TypeOf(t) == IF t.k \in {"rec", "none"} THEN t.s ELSE t.k
Lit(s) == Node("lit", s, << >>)
Text(t) == CASE t.k \in {"int", "str", "lit", "none"} -> t.s [] OTHER -> "?"
KeyText(t) == t.s
RECURSIVE Cat(_)
Cat(ts) == IF ts = << >> THEN "" ELSE Text(Head(ts)) \o "," \o Cat(Tail(ts))
(* the functions an application may name                                       *)
Apply(f, ts) == CASE f = "cat" -> Str(Cat(ts))
                  [] f = "count" -> Int(ToString(Len(ts)))
                  [] f = "last" -> Str(IF ts = << >> THEN "" ELSE Text(ts[Len(ts)]))
                  [] f = "key" -> Str(Text(ts[1]))
                  [] f = "num" -> Int(Text(ts[1]))
Holds(f, t) == CASE f = "str" -> t.k = "str"
                 [] f = "int" -> t.k = "int"
                 [] f = "none" -> t.k = "none"
                 [] f = "zero" -> t.k = "int" /\ t.s = "0"
                 [] f = "odd" -> t.k = "int" /\ t.s \in {"1", "3", "7", "-5"}
                 [] f = "blank" -> t.k = "str" /\ t.s = ""
                 [] f = "x" -> t.k = "str" /\ t.s = "x"
                 [] f = "never" -> FALSE
                 [] f = "always" -> TRUE

RECURSIVE Nodes(_, _), Param(_, _), Params(_, _)
PathOf(t, path) == Nodes(t, path)
Nodes(t, ns) ==
  IF ns = << >> THEN <<t>>
  ELSE LET ks == Params(t, Head(ns).ks) IN
       IF ks = << >> THEN << >>
       ELSE LET x == Look(t, [i \in DOMAIN ks[1] |-> KeyText(ks[1][i])]) IN
            IF Head(ns).m # "" /\ TypeOf(x) # Head(ns).m THEN << >> ELSE Nodes(x, Tail(ns))
(* the number of the branch, 0: none                                           *)
First(ws, Ok(_)) == IF \E i \in DOMAIN ws : Ok(ws[i][1])
                    THEN CHOOSE i \in DOMAIN ws : Ok(ws[i][1]) /\ \A j \in 1..(i - 1) : ~ Ok(ws[j][1])
                    ELSE 0
Selected(t, d) ==
  LET v == PathOf(t, d.path) IN
  IF v = << >> THEN 0
  ELSE IF d.k = "match" THEN First(d.ws, LAMBDA m : m = "" \/ m = TypeOf(v[1]))
  ELSE First(d.ws, LAMBDA f : Holds(f, v[1]))
Param(t, d) ==
  CASE d.k = "lit" -> <<<<Lit(d.s)>>>>
    [] d.k \in {"path", "at"} -> LET v == PathOf(t, d.path) IN IF v = << >> THEN << >> ELSE <<<<v[1]>>>>
    [] d.k = "apply" -> LET ps == Params(t, d.ps) IN IF ps = << >> THEN << >> ELSE <<<<Apply(d.s, ps[1])>>>>
    [] d.k = "concat" -> Params(t, d.ps)
    [] d.k \in {"match", "cond"} -> LET i == Selected(t, d) IN IF i = 0 THEN << >> ELSE Param(t, d.ws[i][2])
Params(t, ds) ==
  IF ds = << >> THEN <<<< >>>>
  ELSE LET a == Param(t, Head(ds))
           b == IF a = << >> THEN << >> ELSE Params(t, Tail(ds)) IN
       IF b = << >> THEN << >> ELSE <<a[1] \o b[1]>>
=============================================================================
