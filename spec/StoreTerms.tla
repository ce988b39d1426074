----------------------------- MODULE StoreTerms -----------------------------
(* Every structure (present keys, alternatives) of a store type                *)
EXTENDS Lookup
Node(k, s, c) == [k |-> k, s |-> s, c |-> c]
Int(n) == Node("int", n, << >>)
Str(s) == Node("str", s, << >>)

Keys(ty) == IF ty[1] = "map" THEN <<"x", "y">> ELSE <<"0", "7">>
RECURSIVE Terms(_)
Two(k, s, n1, a, n2, b) == {Node(k, s, <<<<n1, x>>, <<n2, y>>>>) : x \in Terms(a), y \in Terms(b)}
Opt == <<"opt", <<"pt">>>>
Terms(ty) ==
  CASE ty[1] = "int" -> {Int("0")}
    [] ty[1] = "str" -> {Str("x")}
    [] ty[1] = "pt" -> Two("rec", "pt", "a", <<"str">>, "b", <<"int">>)
    [] ty[1] = "box" -> {Node("rec", "box", <<<<"p", x>>, <<"m", y>>, <<"s", Str("x")>>>>) : x \in Terms(Opt), y \in Terms(<<"map", <<"int">>>>)}
    [] ty[1] = "bag" -> {Node("rec", "bag", <<<<"s", Str("x")>>, <<"v", x>>>>) : x \in Terms(<<"vec", <<"pt">>>>)}
    [] ty[1] = "trio" -> {Node("rec", "", <<<<"int", Int("0")>>, <<"str", Str("x")>>, <<"pt", x>>>>) : x \in Terms(<<"pt">>)}
    [] ty[1] = "rec" -> Two("rec", "", "a", ty[2], "b", ty[3])
    [] ty[1] = "pair" -> Two("rec", "", "first", ty[2], "second", ty[3])
    [] ty[1] \in {"map", "nmap"} -> {Node("map", "", << >>)}
         \cup {Node("map", "", <<<<Keys(ty)[1], x>>>>) : x \in Terms(ty[2])}
         \cup Two("map", "", Keys(ty)[1], ty[2], Keys(ty)[2], ty[2])
    [] ty[1] = "vec" -> {Node("list", "", << >>)} \cup {Node("list", "", <<<<"", x>>>>) : x \in Terms(ty[2])} \cup Two("list", "", "", ty[2], "", ty[2])
    [] ty[1] = "opt" -> {Node("var", "0", <<<<"", None("nothing")>>>>)} \cup {Node("var", "1", <<<<"", x>>>>) : x \in Terms(ty[2])}
    [] ty[1] = "unr" -> {Node("var", "0", <<<<"", None("unresolved")>>>>)} \cup {Node("var", "1", <<<<"", x>>>>) : x \in Terms(ty[2])}
    [] ty[1] = "var" -> {Node("var", "0", <<<<"", None("unresolved")>>>>), Node("var", "1", <<<<"", Str("x")>>>>)}
                          \cup {Node("var", "2", <<<<"", x>>>>) : x \in Terms(ty[2])}
    [] ty[1] \in {"ref", "alias", "ctx"} -> {Node(ty[1], "", <<<<"", x>>>>) : x \in Terms(ty[2])}
    [] ty[1] = "comp" -> LET own == "own" \o ToString(ty[2]) IN Two("comp", own, own, ty[3], "", ty[4])
=============================================================================
