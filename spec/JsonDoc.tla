------------------------------ MODULE JsonDoc ------------------------------
(* Bindable values, JSON documents, and which document stands for which value *)
(*                                                                            *)
(* A type: [k, c, n]: kind, component types, member names.                    *)
(* A value: [k, s, b, c]: kind of its type, number as text, bytes, components *)
(*   (of a variant: <<value>> of alternative number s).                       *)
(* A document: [k, s, b, c, n]: null | true | false | num | str | arr | obj,  *)
(*   or bad for a text that is no document;  *)
(*   number as text, bytes of a string, elements, and for an object the       *)
(*   member names, for a number the kinds of integers that can hold it.       *)
EXTENDS Codec, Base64

Ty(k, c, n) == [k |-> k, c |-> c, n |-> n]
Leaf(k) == Ty(k, << >>, << >>)
Val(k, s, b, c) == [k |-> k, s |-> s, b |-> b, c |-> c]
Doc(k, s, b, c, n) == [k |-> k, s |-> s, b |-> b, c |-> c, n |-> n]
DNum(s, n) == Doc("num", s, << >>, << >>, n)
DStr(b) == Doc("str", "", b, << >>, << >>)
DArr(c) == Doc("arr", "", << >>, c, << >>)
DObj(n, c) == Doc("obj", "", << >>, c, n)
DNull == Doc("null", "", << >>, << >>, << >>)
Ints == {"int", "uint", "enum", "char", "mark", "byte", "sbyte", "wide"}
(* alternative number s (as text) of a variant with n alternatives            *)
Alt(t, s) == CHOOSE i \in 1..Len(t.c) : ToString(i - 1) = s
IsAlt(t, s) == \E i \in 1..Len(t.c) : ToString(i - 1) = s
(* members of empty types leave no trace in a sequence                        *)
Shown(t) == SelectSeq([i \in DOMAIN t.c |-> i], LAMBDA i : t.c[i].k # "empty")
Has(x, i) == \E j \in DOMAIN x : x[j] = i

(* ---- does the document d stand for the value v of the type t ------------- *)
RECURSIVE Stands(_, _, _)
Stands(t, v, d) ==
  CASE t.k = "bool" -> d.k = v.s                        \* "true" / "false"
    [] t.k \in Ints -> d.k = "num" /\ d.s = v.s
    [] t.k = "double" -> d.k = "num" /\ d.s = v.s
    [] t.k = "string" -> d.k = "str" /\ d.b = v.b
    [] t.k \in {"bytes", "buffer"} -> d.k = "str" /\ d.b = Encode(v.b)
    [] t.k = "list" -> d.k = "arr" /\ Len(d.c) = Len(v.c) /\ \A i \in DOMAIN v.c : Stands(t.c[1], v.c[i], d.c[i])
    [] t.k = "map" ->
         /\ d.k = "obj"
         /\ \A i \in DOMAIN t.n : \E j \in DOMAIN d.n : d.n[j] = t.n[i] /\ Stands(t.c[i], v.c[i], d.c[j])
         /\ Len(d.n) = Len(t.n)
    [] t.k = "seq" ->
         LET m == Shown(t) IN
         IF m = << >> THEN d.k # "bad"         \* there is but one value
         ELSE IF Len(m) = 1 THEN Stands(t.c[m[1]], v.c[m[1]], d)
         ELSE d.k = "arr" /\ Len(d.c) = Len(m) /\ \A i \in DOMAIN m : Stands(t.c[m[i]], v.c[m[i]], d.c[i])
    [] t.k = "variant" ->
         LET a == t.c[Alt(t, v.s)] IN
         IF a.k = "empty" THEN d.k = "num" /\ d.s = v.s
         ELSE d.k = "arr" /\ Len(d.c) = 2 /\ d.c[1].k = "num" /\ d.c[1].s = v.s /\ Stands(a, v.c[1], d.c[2])
    [] t.k = "empty" -> TRUE

(* ---- does d stand for any value of t at all ------------------------------ *)
RECURSIVE Fits(_, _)
Fits(t, d) ==
  CASE t.k = "bool" -> d.k \in {"true", "false"}
    [] t.k \in Ints -> d.k = "num" /\ Has(d.n, t.k)
    [] t.k = "double" -> d.k = "num" /\ Has(d.n, "double")
    [] t.k = "string" -> d.k = "str"
    [] t.k = "bytes" -> d.k = "str" /\ Canonical(d.b)
    [] t.k = "buffer" -> d.k = "str" /\ Canonical(d.b) /\ ToString(Len(Meaning(d.b))) = t.n[1]
    [] t.k = "list" -> d.k = "arr" /\ \A i \in DOMAIN d.c : Fits(t.c[1], d.c[i])
    [] t.k = "map" ->
         d.k = "obj" /\ Len(d.n) = Len(t.n)
         /\ \A i \in DOMAIN t.n : \E j \in DOMAIN d.n : d.n[j] = t.n[i] /\ Fits(t.c[i], d.c[j])
    [] t.k = "seq" ->
         LET m == Shown(t) IN
         IF m = << >> THEN d.k = "null"
         ELSE IF Len(m) = 1 THEN Fits(t.c[m[1]], d)
         ELSE d.k = "arr" /\ Len(d.c) = Len(m) /\ \A i \in DOMAIN m : Fits(t.c[m[i]], d.c[i])
    [] t.k = "variant" ->
         \/ d.k = "num" /\ IsAlt(t, d.s) /\ t.c[Alt(t, d.s)].k = "empty"
         \/ d.k = "arr" /\ Len(d.c) = 2 /\ d.c[1].k = "num" /\ IsAlt(t, d.c[1].s)
            /\ LET a == t.c[Alt(t, d.c[1].s)] IN a.k # "empty" /\ Fits(a, d.c[2])
    [] t.k = "empty" -> TRUE

(* ---- a writer and a reader (what an implementation does) ----------------- *)
RECURSIVE Write(_, _), Read(_, _)
Write(t, v) ==
  CASE t.k = "bool" -> Doc(v.s, "", << >>, << >>, << >>)
    [] t.k \in Ints \cup {"double"} -> DNum(v.s, <<t.k>>)
    [] t.k = "string" -> DStr(v.b)
    [] t.k \in {"bytes", "buffer"} -> DStr(Encode(v.b))
    [] t.k = "list" -> DArr([i \in DOMAIN v.c |-> Write(t.c[1], v.c[i])])
    [] t.k = "map" -> DObj(t.n, [i \in DOMAIN t.n |-> Write(t.c[i], v.c[i])])
    [] t.k = "seq" ->
         LET m == Shown(t) w == [i \in DOMAIN m |-> Write(t.c[m[i]], v.c[m[i]])] IN
         IF m = << >> THEN DNull ELSE IF Len(m) = 1 THEN w[1] ELSE DArr(w)
    [] t.k = "variant" ->
         LET a == t.c[Alt(t, v.s)] IN
         IF a.k = "empty" THEN DNum(v.s, <<"int">>) ELSE DArr(<<DNum(v.s, <<"int">>), Write(a, v.c[1])>>)
    [] t.k = "empty" -> DNull
Read(t, d) ==     \* for a document that fits
  CASE t.k = "bool" -> Val("bool", d.k, << >>, << >>)
    [] t.k \in Ints \cup {"double"} -> Val(t.k, d.s, << >>, << >>)
    [] t.k = "string" -> Val("string", "", d.b, << >>)
    [] t.k \in {"bytes", "buffer"} -> Val(t.k, "", Meaning(d.b), << >>)
    [] t.k = "list" -> Val("list", "", << >>, [i \in DOMAIN d.c |-> Read(t.c[1], d.c[i])])
    [] t.k = "map" -> Val("map", "", << >>, [i \in DOMAIN t.n |-> LET j == CHOOSE j \in DOMAIN d.n : d.n[j] = t.n[i]
                                                                 IN Read(t.c[i], d.c[j])])
    [] t.k = "seq" ->
         LET m == Shown(t)
             at(i) == CHOOSE q \in DOMAIN m : m[q] = i IN
         Val("seq", "", << >>, [i \in DOMAIN t.c |->
             IF t.c[i].k = "empty" THEN Val("empty", "", << >>, << >>)
             ELSE IF Len(m) = 1 THEN Read(t.c[i], d) ELSE Read(t.c[i], d.c[at(i)])])
    [] t.k = "variant" ->
         IF d.k = "num" THEN Val("variant", d.s, << >>, <<Val("empty", "", << >>, << >>)>>)
         ELSE Val("variant", d.c[1].s, << >>, <<Read(t.c[Alt(t, d.c[1].s)], d.c[2])>>)
    [] t.k = "empty" -> Val("empty", "", << >>, << >>)

(* what a reader may answer                                                   *)
ReadOk(t, d, ok, v) == IF ok THEN Stands(t, v, d) ELSE ~Fits(t, d)

(* ------------------------------------------- the types used for checking -- *)
E0 == Leaf("empty")
Rec == Ty("map", <<Leaf("bool"), Leaf("int"), Leaf("uint"), Leaf("double"), Leaf("string"), Leaf("enum")>>,
          <<"b", "i", "u", "d", "s", "e">>)
Var == Ty("variant", <<E0, Leaf("int"), Leaf("string"), E0, Rec>>, << >>)
Pair == Ty("seq", <<Leaf("int"), Leaf("string")>>, << >>)
Opt == Ty("variant", <<E0, Rec>>, << >>)
Bare == Ty("map", <<Leaf("bool"), Leaf("int"), Leaf("uint"), Leaf("string"), Leaf("enum")>>, <<"b", "i", "u", "s", "e">>)
BareVar == Ty("variant", <<E0, Leaf("int"), Leaf("string"), E0, Bare>>, << >>)
BareOpt == Ty("variant", <<E0, Bare>>, << >>)
Types == [
  rec |-> Rec, recs |-> Ty("list", <<Rec>>, << >>), pair |-> Pair,
  unary |-> Ty("seq", <<Leaf("int")>>, << >>),
  var |-> Var, vars |-> Ty("list", <<Var>>, << >>),
  blobs |-> Ty("list", <<Leaf("bytes")>>, << >>),
  uid |-> Ty("buffer", << >>, <<"16">>), four |-> Ty("buffer", << >>, <<"4">>),
  marks |-> Ty("seq", <<Leaf("mark"), Leaf("byte"), Leaf("sbyte")>>, << >>),      \* enumerations over unsigned int, unsigned char, signed char
  wides |-> Ty("list", <<Leaf("wide")>>, << >>),      \* over 64 bits
  nest |-> Ty("map", <<Rec, Ty("list", <<Pair>>, << >>), Var, Leaf("bytes"), Leaf("char")>>, <<"a", "l", "v", "x", "c">>),
  words |-> Ty("list", <<Ty("list", <<Leaf("string")>>, << >>)>>, << >>),
  dict |-> Ty("map", <<Leaf("int"), Pair>>, <<"k1", "k2">>),
  mixed |-> Ty("seq", <<Var, Ty("list", <<Leaf("int")>>, << >>), Ty("seq", <<Leaf("bool"), E0, Leaf("double")>>, << >>)>>, << >>),
  wrap |-> Ty("seq", <<Ty("list", <<Leaf("int")>>, << >>)>>, << >>),
  opt |-> Opt, opts |-> Ty("seq", <<Opt, Opt>>, << >>),
  none |-> Ty("seq", << >>, << >>), gap |-> Ty("seq", <<E0, Leaf("string"), E0>>, << >>),
  deep |-> Ty("variant", <<E0, Ty("variant", <<E0, Leaf("int"), Ty("list", <<Leaf("int")>>, << >>)>>, << >>), Pair>>, << >>),
  \* and without real numbers
  barerec |-> Bare, barerecs |-> Ty("list", <<Bare>>, << >>), barevar |-> BareVar, barevars |-> Ty("list", <<BareVar>>, << >>),
  barenest |-> Ty("map", <<Bare, Ty("list", <<Pair>>, << >>), BareVar, Leaf("bytes"), Leaf("char")>>, <<"a", "l", "v", "x", "c">>),
  baremixed |-> Ty("seq", <<BareVar, Ty("list", <<Leaf("int")>>, << >>), Ty("seq", <<Leaf("bool"), E0, Leaf("uint")>>, << >>)>>, << >>),
  bareopt |-> BareOpt, bareopts |-> Ty("seq", <<BareOpt, BareOpt>>, << >>) ]
=============================================================================
