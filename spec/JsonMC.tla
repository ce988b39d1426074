------------------------------ MODULE JsonMC -------------------------------
(* Values of the types, grown from small parts; the documents they are        *)
(* written to, changed in one place.                                          *)
EXTENDS JsonDoc, Json, FiniteSets
CONSTANTS Cases
VARIABLES name, val, doc, step
vars == <<name, val, doc, step>>
V(k, s) == Val(k, s, << >>, << >>)
B(k, b) == Val(k, "", b, << >>)
Nil == V("empty", "")
RECURSIVE Some(_, _)
Prod2(A, C) == {<<a, c>> : a \in A, c \in C}
Pick(S, n) == IF Cardinality(S) <= n THEN S ELSE CHOOSE T \in SUBSET S : Cardinality(T) = n
(* a few values of a type; small: two of every kind                           *)
Some(t, small) ==
  CASE t.k = "bool" -> {V("bool", "true"), V("bool", "false")}
    [] t.k = "int" -> {V("int", "-2147483648"), V("int", "7")}
    [] t.k = "uint" -> {V("uint", "0"), V("uint", "4294967295")}
    [] t.k = "enum" -> {V("enum", "-1"), V("enum", "2")}
    [] t.k = "mark" -> {V("mark", "0"), V("mark", "4294967295")}
    [] t.k = "byte" -> {V("byte", "0"), V("byte", "255")}
    [] t.k = "sbyte" -> {V("sbyte", "-128"), V("sbyte", "127")}
    [] t.k = "wide" -> {V("wide", "-9223372036854775808"), V("wide", "9223372036854775807")}
    [] t.k = "char" -> {V("char", "-128"), V("char", "65")}
    [] t.k = "double" -> {V("double", "0x1.8000000000000p+1"), V("double", "-0x1.5555555555555p-2")}
    [] t.k = "string" -> {B("string", << >>), B("string", <<97, 34, 92, 195, 164>>)}
    [] t.k = "bytes" -> {B("bytes", << >>), B("bytes", <<255, 0>>)}
    [] t.k = "buffer" -> IF t.n[1] = "4" THEN {B("buffer", <<0, 128, 255, 7>>)} ELSE {B("buffer", [i \in 1..16 |-> i * 15])}
    [] t.k = "empty" -> {Nil}
    [] t.k = "list" -> LET S == Some(t.c[1], TRUE) IN
         {Val("list", "", << >>, << >>)} \cup {Val("list", "", << >>, <<x>>) : x \in S}
         \cup {Val("list", "", << >>, <<x, y>>) : x \in Pick(S, 2), y \in Pick(S, 2)}
    [] t.k = "variant" -> UNION {{Val("variant", ToString(i - 1), << >>, <<x>>) : x \in Some(t.c[i], TRUE)} : i \in DOMAIN t.c}
    [] OTHER ->     \* seq, map: first and last values of the components, and each component alone varied
         LET S == [i \in DOMAIN t.c |-> Some(t.c[i], TRUE)]
             f == [i \in DOMAIN t.c |-> CHOOSE x \in S[i] : TRUE] IN
         {Val(t.k, "", << >>, f)} \cup
         UNION {{Val(t.k, "", << >>, [f EXCEPT ![i] = x]) : x \in S[i]} : i \in DOMAIN t.c}
Init == name \in DOMAIN Types /\ val \in Some(Types[name], FALSE) /\ doc = Write(Types[name], val) /\ step = 0

(* one change somewhere in a document                                         *)
Other == {DNull, Doc("true", "", << >>, << >>, << >>), DNum("1", <<"int", "uint", "enum", "char", "mark", "byte", "sbyte", "wide">>), DNum("-1", <<"int", "enum", "char", "sbyte", "wide">>),
          DNum("300000000000", <<"wide">>), DStr(<< >>), DStr(<<65>>), DStr(<<65, 65, 61, 61>>), DArr(<< >>),
          DArr(<<DNum("9", <<"int", "uint", "enum", "char", "mark", "byte", "sbyte", "wide">>), DNull>>), DObj(<< >>, << >>)}
RECURSIVE Changed(_)
Changed(d) ==
  (Other \ {d})
  \cup UNION {{[d EXCEPT !.c[i] = x] : x \in Changed(d.c[i])} : i \in DOMAIN d.c}
  \cup (IF d.k = "arr" THEN {[d EXCEPT !.c = Append(@, DNull)]} \cup
          {[d EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)] : i \in 1..(IF d.c = << >> THEN 0 ELSE 1)} ELSE {})
  \cup (IF d.k = "obj" /\ d.n # << >> THEN {[d EXCEPT !.c = Tail(@), !.n = Tail(@)]} ELSE {})
Next == step = 0 /\ step' = 1 /\ doc' \in Changed(doc) /\ UNCHANGED <<name, val>>
Spec == Init /\ [][Next]_vars

T == Types[name]
RoundTrip == step = 0 => Fits(T, doc) /\ Read(T, doc) = val /\ Stands(T, val, doc)
(* a document that fits is read as the one value it stands for                *)
OneMeaning == /\ Fits(T, doc) => Stands(T, Read(T, doc), doc)
              /\ Stands(T, val, doc) => Read(T, doc) = val
Case == (Cases /\ step = 0) => PrintT(<<"CASE", ToJson([type |-> name, val |-> val])>>)

ASSUME PrintT(<<"CASE", ToJson([types |-> Types])>>)
=============================================================================
