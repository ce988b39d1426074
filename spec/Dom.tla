-------------------------------- MODULE Dom --------------------------------
(* Views over a store, and what they look like on the page.  A view is one of  *)
(*   [k: elem, s: tag, uid, vs: views]    [k: text, ps: descriptions]          *)
(*   [k: attr, s: name, ps]               [k: prop, s: name, ps]               *)
(*   [k: html, shown: what the markup shows]                                   *)
(*   [k: attrif, s: name, path, f]        [k: classif, s: class, path, f]      *)
(*   [k: classwhen, s: class, path, m]    [k: match or cond, path, ws]         *)
(*   [k: each, path, key, vs]             [k: on, s: type, id, sends, ps]      *)
(*   [k: file, id, sends, ps]                                                  *)
(* and what is to be seen an element                                           *)
(*   [tag, text, attrs, cls, kids, hidden, ons, uid]                           *)
(* where a text has the tag "".  ons: what to do about events.  uid: which     *)
(* element of the view it is, 0 inside a list.                                 *)
EXTENDS Branches

Blank == [tag |-> "", text |-> "", attrs |-> {}, cls |-> {}, kids |-> << >>, hidden |-> FALSE, ons |-> << >>, uid |-> 0]
Element(tag) == [Blank EXCEPT !.tag = tag]
TextNode(s) == [Blank EXCEPT !.text = s]
(* texts side by side are one, an empty text is none                           *)
Append1(kids, x) ==
  IF x.tag = "" /\ x.text = "" THEN kids
  ELSE IF x.tag = "" /\ kids # << >> /\ kids[Len(kids)].tag = ""
       THEN [kids EXCEPT ![Len(kids)].text = @ \o x.text]
       ELSE Append(kids, x)
RECURSIVE Append2(_, _)
Append2(kids, xs) == IF xs = << >> THEN kids ELSE Append2(Append1(kids, Head(xs)), Tail(xs))
SetAttr(el, n, s) == [el EXCEPT !.attrs = {a \in @ : a[1] # n} \cup {<<n, s>>}]
NoAttr(el, n) == [el EXCEPT !.attrs = {a \in @ : a[1] # n}]
(* the item of a list, composed with the store it is in                        *)
Within(t, key, item) == Node("comp", key, <<<<key, item>>, <<"", t>>>>)
WithEvent(t, type) == Node("comp", "event", <<<<"event", None(type)>>, <<"", t>>>>)

(* text for a parameter: nothing where a path does not match                   *)
RECURSIVE TextOf(_, _), TextOfAll(_, _)
TextOf(t, d) ==
  CASE d.k = "lit" -> d.s
    [] d.k \in {"path", "at"} -> LET v == PathOf(t, d.path) IN IF v = << >> THEN "" ELSE Text(v[1])
    [] d.k = "concat" -> TextOfAll(t, d.ps)
    [] d.k \in {"match", "cond"} -> LET i == Selected(t, d) IN IF i = 0 THEN "" ELSE TextOf(t, d.ws[i][2])
TextOfAll(t, ds) == IF ds = << >> THEN "" ELSE TextOf(t, Head(ds)) \o TextOfAll(t, Tail(ds))
(* classes stand apart by the constant " "                                     *)
Word(t, ds) == LET s == TextOfAll(t, ds) IN IF s = "" THEN {} ELSE {s}
RECURSIVE Words(_, _, _)
Words(t, ds, now) ==
  IF ds = << >> THEN Word(t, now)
  ELSE IF Head(ds).k = "lit" /\ Head(ds).s = " " THEN Word(t, now) \cup Words(t, Tail(ds), << >>)
  ELSE Words(t, Tail(ds), Append(now, Head(ds)))

(* markup, as what it shows                                                    *)
RECURSIVE Markup(_)
Markup(x) == [Element(x.tag) EXCEPT !.text = x.text, !.attrs = {x.attrs[i] : i \in DOMAIN x.attrs}, !.cls = {x.cls[i] : i \in DOMAIN x.cls},
                                    !.kids = [i \in DOMAIN x.kids |-> Markup(x.kids[i])]]

Items(t, path) == LET v == PathOf(t, path) IN IF v = << >> THEN << >> ELSE v[1].c
RECURSIVE Put1(_, _, _, _), PutAll(_, _, _, _), PutItems(_, _, _, _, _)
(* el with view v of store t added; deep: inside a list                        *)
Put1(t, el, v, deep) ==
  CASE v.k = "elem" -> [el EXCEPT !.kids = Append1(@, [PutAll(t, Element(v.s), v.vs, deep) EXCEPT !.uid = IF deep THEN 0 ELSE v.uid])]
    [] v.k = "text" -> [el EXCEPT !.kids = Append1(@, TextNode(TextOfAll(t, v.ps)))]
    [] v.k = "attr" -> IF v.s = "class" THEN [el EXCEPT !.cls = Words(t, v.ps, << >>)] ELSE SetAttr(el, v.s, TextOfAll(t, v.ps))
    [] v.k = "prop" -> SetAttr(el, "." \o v.s, TextOfAll(t, v.ps))
    [] v.k = "html" -> [el EXCEPT !.kids = [i \in DOMAIN v.shown |-> Markup(v.shown[i])]]
    [] v.k = "attrif" -> LET x == PathOf(t, v.path) IN
                         IF x # << >> /\ Holds(v.f, x[1]) THEN SetAttr(el, v.s, "") ELSE NoAttr(el, v.s)
    [] v.k = "classif" -> LET x == PathOf(t, v.path) IN
                          IF x # << >> /\ Holds(v.f, x[1]) THEN [el EXCEPT !.cls = @ \cup {v.s}] ELSE [el EXCEPT !.cls = @ \ {v.s}]
    [] v.k = "classwhen" -> LET x == PathOf(t, v.path) IN
                            IF x # << >> /\ TypeOf(x[1]) = v.m THEN [el EXCEPT !.cls = @ \cup {v.s}] ELSE [el EXCEPT !.cls = @ \ {v.s}]
    [] v.k \in {"match", "cond"} -> LET i == Selected(t, v) IN IF i = 0 THEN el ELSE PutAll(t, el, v.ws[i][2], deep)
    [] v.k = "each" -> PutItems(t, el, v, Items(t, v.path), deep)
    [] v.k = "on" -> [el EXCEPT !.ons = Append(@, [on |-> v, t |-> t])]
    [] v.k = "file" -> [el EXCEPT !.kids = Append(@, [Element("input") EXCEPT !.attrs = {<<"type", "file">>}, !.hidden = TRUE,
                                                        !.ons = <<[on |-> v, t |-> t]>>])]
PutAll(t, el, vs, deep) == IF vs = << >> THEN el ELSE PutAll(t, Put1(t, el, Head(vs), deep), Tail(vs), deep)
PutItems(t, el, v, items, deep) ==
  IF items = << >> THEN el
  ELSE PutItems(t, PutAll(Within(t, v.key, Head(items)[2]), el, v.vs, TRUE), v, Tail(items), deep)
Render(t, view) == PutAll(t, Element("main"), <<view>>, FALSE)

(* what an element shows, told apart from what it listens to                   *)
RECURSIVE See(_)
See(x) == [tag |-> x.tag, text |-> x.text, attrs |-> x.attrs, cls |-> x.cls, hidden |-> x.hidden, kids |-> [i \in DOMAIN x.kids |-> See(x.kids[i])]]

(* the elements that are to stay the same, by those shown (id)                 *)
RECURSIVE Marks(_, _)
Marks(x, y) == (IF x.uid = 0 THEN {} ELSE {<<x.uid, y.id>>}) \cup UNION {Marks(x.kids[i], y.kids[i]) : i \in DOMAIN x.kids}
Steady(ms) == \A a, b \in ms : a[1] = b[1] <=> a[2] = b[2]

(* An event bubbles from the element at a place outwards; handlers are called  *)
(* in their order, with parameters found in the store and the event.           *)
ElementsIn(x) == SelectSeq(x.kids, LAMBDA y : y.tag # "")
RECURSIVE Listeners(_, _)
Listeners(x, at) == (IF at = << >> THEN << >> ELSE Listeners(ElementsIn(x)[Head(at)], Tail(at))) \o x.ons
Hears(x, at, type) == SelectSeq(Listeners(x, at), LAMBDA o : (IF o.on.k = "file" THEN "change" ELSE o.on.s) = type)
Call(o, type) == LET ps == Params(WithEvent(o.t, type), o.on.ps) IN
                 IF ps = << >> THEN << >> ELSE <<[id |-> o.on.id, sends |-> o.on.sends, ps |-> ps[1]]>>
(* the calls that follow one that changes the store are not looked at          *)
RECURSIVE Calls(_, _)
Calls(os, type) ==
  IF os = << >> THEN << >>
  ELSE LET c == Call(Head(os), type) IN
       IF c # << >> /\ c[1].sends > 0 THEN c ELSE c \o Calls(Tail(os), type)
Fired(t, view, at, type) == Calls(Hears(Render(t, view), at, type), type)
SentBy(calls) == IF calls = << >> THEN 0 ELSE calls[Len(calls)].sends
=============================================================================
