------------------------------- MODULE DomMC -------------------------------
(* How a page is kept, instead of made anew: every element, text, branch and   *)
(* list item stays and is brought up to date; branches that do not show are    *)
(* kept aside.  It always shows what Render says, for every structure of the   *)
(* store shapes in the file PROGRAMS, from every earlier one.                  *)
(* A kept view is [v: the view, x: its own text or element without children,   *)
(* at: the branch that shows, sub: what is kept below].                        *)
EXTENDS Dom, IOUtils
CONSTANT Lazy           (* branches that do not show are left as they are      *)
VARIABLES prog, term, kept, phase
vars == <<prog, term, kept, phase>>
(* [shape, view]                                                               *)
Programs == JsonDeserialize(IOEnv.PROGRAMS)
Kept(v, x, at, sub) == [v |-> v, x |-> x, at |-> at, sub |-> sub]
Other(v) == v.k \in {"elem", "text", "html", "match", "cond", "each", "file", "on"}
RECURSIVE Dress(_, _, _)
(* an element's own attributes and classes, put on in order, over what it has  *)
Dress(t, el, vs) == IF vs = << >> THEN el ELSE Dress(t, IF Other(Head(vs)) THEN el ELSE Put1(t, el, Head(vs), FALSE), Tail(vs))
RECURSIVE Mount(_, _), Update(_, _, _)
Body(v, i) == v.ws[i][2]
EachItem(t, v) == LET items == Items(t, v.path) IN
  [i \in DOMAIN items |-> [j \in DOMAIN v.vs |-> Mount(Within(t, v.key, items[i][2]), v.vs[j])]]
Mount(t, v) ==
  CASE v.k = "elem" -> Kept(v, Dress(t, Element(v.s), v.vs), 0, [i \in DOMAIN v.vs |-> Mount(t, v.vs[i])])
    [] v.k = "text" -> Kept(v, TextNode(TextOfAll(t, v.ps)), 0, << >>)
    [] v.k \in {"match", "cond"} -> Kept(v, Blank, Selected(t, v), [i \in DOMAIN v.ws |-> [j \in DOMAIN Body(v, i) |-> Mount(t, Body(v, i)[j])]])
    [] v.k = "each" -> Kept(v, Blank, 0, EachItem(t, v))
    [] OTHER -> Kept(v, Blank, 0, << >>)
Update(t, k, lazy) ==
  LET v == k.v IN
  CASE v.k = "elem" -> [k EXCEPT !.x = Dress(t, @, v.vs), !.sub = [i \in DOMAIN @ |-> Update(t, @[i], lazy)]]
    [] v.k = "text" -> [k EXCEPT !.x = TextNode(TextOfAll(t, v.ps))]
    [] v.k \in {"match", "cond"} ->
         LET n == Selected(t, v) IN
         [k EXCEPT !.at = n, !.sub = [i \in DOMAIN @ |-> IF lazy /\ i # n THEN @[i] ELSE [j \in DOMAIN @[i] |-> Update(t, @[i][j], lazy)]]]
    [] v.k = "each" -> [k EXCEPT !.sub = EachItem(t, v)]
    [] OTHER -> k
RECURSIVE Page(_, _), PageAll(_, _), PageRows(_, _)
(* what a kept view adds to the nodes before it                                *)
Page(kids, k) ==
  CASE k.v.k = "elem" -> Append1(kids, [k.x EXCEPT !.kids = PageAll(<< >>, k.sub)])
    [] k.v.k = "text" -> Append1(kids, k.x)
    [] k.v.k = "html" -> [i \in DOMAIN k.v.shown |-> Markup(k.v.shown[i])]
    [] k.v.k \in {"match", "cond"} -> IF k.at = 0 THEN kids ELSE PageAll(kids, k.sub[k.at])
    [] k.v.k = "each" -> PageRows(kids, k.sub)
    [] k.v.k = "file" -> Append(kids, [Element("input") EXCEPT !.attrs = {<<"type", "file">>}, !.hidden = TRUE])
    [] OTHER -> kids
PageAll(kids, ks) == IF ks = << >> THEN kids ELSE PageAll(Page(kids, Head(ks)), Tail(ks))
PageRows(kids, rows) == IF rows = << >> THEN kids ELSE PageRows(PageAll(kids, Head(rows)), Tail(rows))
View == Programs[prog].view

Init == /\ prog \in DOMAIN Programs
        /\ term \in Terms(Programs[prog].shape)
        /\ kept = Mount(term, View) /\ phase = "start"
Next == /\ phase' = "on" /\ UNCHANGED prog
        /\ \E t \in Terms(Programs[prog].shape) :
             /\ term' = t /\ kept' = Update(t, kept, Lazy)
             /\ (phase = "start" => PrintT(<<"CASE", ToJson(<<prog, term, t>>)>>))
Spec == Init /\ [][Next]_vars

Same == See(Render(term, View)).kids = [i \in DOMAIN Page(<< >>, kept) |-> See(Page(<< >>, kept)[i])]
(* nothing is left to do once it is up to date                                 *)
Still == Update(term, kept, Lazy) = kept
(* no text is empty and no two are side by side, nor does one have children    *)
RECURSIVE Neat(_)
Neat(x) == /\ (x.tag = "" => x.kids = << >> /\ x.attrs = {} /\ x.cls = {})
           /\ \A i \in DOMAIN x.kids : Neat(x.kids[i]) /\ (x.kids[i].tag = "" => x.kids[i].text # "")
           /\ \A i \in 1..(Len(x.kids) - 1) : x.kids[i].tag # "" \/ x.kids[i + 1].tag # ""
AllNeat == Neat(Render(term, View))
(* an attribute is there once, and no class is blank                           *)
RECURSIVE Once(_)
Once(x) == /\ \A a, b \in x.attrs : a[1] = b[1] => a = b
           /\ "" \notin x.cls /\ \A i \in DOMAIN x.kids : Once(x.kids[i])
AllOnce == Once(Render(term, View))
(* every element not in a list or in markup is of the view, and there once     *)
RECURSIVE Uids(_)
Uids(x) == (IF x.uid = 0 THEN << >> ELSE <<x.uid>>) \o
           (LET RECURSIVE go(_) go(n) == IF n = 0 THEN << >> ELSE go(n - 1) \o Uids(x.kids[n]) IN go(Len(x.kids)))
OneEach == LET us == Uids(Render(term, View)) IN \A i, j \in DOMAIN us : us[i] = us[j] => i = j
(* an event bubbles outwards: who hears it at an element is at the end of who hears it further in *)
RECURSIVE Places(_)
Places(x) == {<< >>} \cup UNION {{<<i>> \o p : p \in Places(ElementsIn(x)[i])} : i \in DOMAIN ElementsIn(x)}
Bubbles == LET r == Render(term, View) IN
  \A p \in Places(r) : \A n \in 0..Len(p) :
    LET a == Listeners(r, SubSeq(p, 1, n)) b == Listeners(r, p) IN
    Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
=============================================================================
