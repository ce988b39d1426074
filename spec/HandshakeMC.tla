---------------------------- MODULE HandshakeMC ----------------------------
(* A server side that reads one byte at a time, against every request built   *)
(* from these lines, cut off at every byte.                                   *)
EXTENDS Handshake, Json, FiniteSets
CONSTANTS MaxHeaders, Cases
VARIABLES first, hs, wire, aut
ASSUME Sha1(<<97, 98, 99>>) =   \* "abc"
  <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
ASSUME Response(SampleKey) = Expected
mvars == <<hvars, first, hs, wire, aut>>

HeaderLines == <<
  <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 75, 101, 121, 58, 32, 107, 49>>,
  <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 75, 69, 89, 58, 107, 49>>,
  <<83, 69, 67, 45, 87, 69, 66, 83, 79, 67, 75, 69, 84, 45, 75, 69, 89, 58, 32, 32, 32, 107, 49>>,
  <<67, 111, 111, 107, 105, 101, 115, 58, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 116>>,
  <<67, 79, 79, 75, 73, 69, 83, 58, 97, 61, 98, 59, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 116>>,
  <<99, 111, 111, 107, 105, 101, 115, 58, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 120, 61, 117, 59, 32, 99, 61, 100, 59, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 116, 59>>,
  <<67, 111, 111, 107, 105, 101, 115, 58, 32, 97, 61, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 117>>,
  <<99, 111, 111, 107, 105, 101, 115, 58, 32, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61>>,
  <<72, 111, 115, 116, 58, 32, 120>>,
  <<88, 45, 67, 111, 111, 107, 105, 101, 115, 58, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 117>>,
  <<67, 111, 111, 107, 105, 101, 58, 32, 110, 98, 100, 108, 95, 97, 117, 116, 104, 61, 117>>,
  <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 75, 101, 121, 115, 58, 32, 117>>,
  <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 75, 101, 58, 32, 117>>,
  <<110, 111, 118, 97, 108, 117, 101>>,
  <<99, 111, 111, 107, 105, 101, 115>>,
  <<58>>,
  <<97, 58, 98, 13, 99>>,
  <<89, 58, 10>>
>>
FirstLines == <<
  <<71, 69, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10>>,
  <<103, 101, 116, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10>>,
  <<71, 69, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 48, 13, 10>>,
  <<71, 69, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 10, 10>>,
  <<71, 69, 84, 32, 47, 120, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10>>
>>
KeyLines == 1..3
CookieLines == 4..8
OtherLines == 9..18
(* exactly one key, at most one cookie line, any others, in any order         *)
Kinds == KeyLines \cup CookieLines \cup OtherLines
HeaderSeqs == UNION {{h \in [1..n -> Kinds] :
    /\ Cardinality({i \in 1..n : h[i] \in KeyLines}) = 1
    /\ Cardinality({i \in 1..n : h[i] \in CookieLines}) <= 1} : n \in 1..MaxHeaders}
RequestBytes(f, h) == FirstLines[f] \o FlattenSeq([i \in DOMAIN h |-> HeaderLines[h[i]] \o <<13, 10>>]) \o <<13, 10>>

Const(x) == [s \in {"a", "b"} |-> x]
(* the reading automaton: phase, line read so far, what was found             *)
Start == [ph |-> "first", line |-> << >>, key |-> << >>, cookies |-> << >>]
Init ==
  /\ role = [a |-> "server", b |-> "raw"] /\ info = Const([origin |-> << >>, token |-> << >>])
  /\ inb = Const(<< >>) /\ outb = Const(<< >>) /\ over = Const("none") /\ rep = Const("none")
  /\ first \in DOMAIN FirstLines /\ hs \in HeaderSeqs
  /\ (first # 1) => Len(hs) = 1
  /\ wire = RequestBytes(first, hs) /\ aut = Start
Note(a, line) ==
  IF ~HasColon(line) THEN a
  ELSE IF NameOf(line) = KeyName THEN [a EXCEPT !.key = ValueOf(line)]
  ELSE IF NameOf(line) = CookieName THEN [a EXCEPT !.cookies = ValueOf(line)] ELSE a
Take(a, x) ==
  LET ln == Append(a.line, x) n == Len(ln) IN
  IF a.ph = "first"
  THEN IF n < Len(RequestLine) THEN [a EXCEPT !.line = ln]
       ELSE [a EXCEPT !.line = << >>, !.ph = IF ln = RequestLine THEN "header" ELSE "bad"]
  ELSE IF a.ph = "header" /\ n >= 2 /\ SubSeq(ln, n - 1, n) = <<13, 10>>
  THEN IF n = 2 THEN [a EXCEPT !.line = << >>, !.ph = "done"]
       ELSE [Note(a, SubSeq(ln, 1, n - 2)) EXCEPT !.line = << >>]
  ELSE IF a.ph = "header" THEN [a EXCEPT !.line = ln] ELSE a

SendByte ==
  /\ wire # << >> /\ over["a"] = "none"
  /\ Input("a", <<Head(wire)>>) /\ wire' = Tail(wire) /\ aut' = Take(aut, Head(wire))
  /\ UNCHANGED <<first, hs>>
Stop == over["a"] = "none" /\ Over("a", "eof") /\ UNCHANGED <<first, hs, wire, aut>>
Answer ==
  /\ aut.ph = "done" /\ outb["a"] = << >>
  /\ outb' = [outb EXCEPT !["a"] = Response(aut.key)]
  /\ UNCHANGED <<role, info, inb, over, rep, first, hs, wire, aut>>
Tell == /\ CASE aut.ph = "bad" -> Report("a", "bad", << >>)
             [] aut.ph = "done" -> outb["a"] # << >> /\ \E t \in Tokens(aut.cookies) : Report("a", "ready", t)
             [] OTHER -> over["a"] = "eof" /\ Report("a", "err", << >>)
        /\ UNCHANGED <<first, hs, wire, aut>>
(* the endpoint acts as soon as it can                                        *)
Next == IF aut.ph = "done" /\ outb["a"] = << >> THEN Answer
        ELSE IF rep["a"] = "none" /\ (aut.ph \in {"bad", "done"} \/ over["a"] = "eof") THEN Tell
        ELSE rep["a"] = "none" /\ (SendByte \/ Stop)
Spec == Init /\ [][Next]_mvars

(* the automaton and the meaning of the bytes agree                           *)
Agree ==
  /\ (aut.ph = "done") = Complete(inb["a"])
  /\ (aut.ph = "bad") = (Len(inb["a"]) >= Len(RequestLine) /\ ~GoodLine(inb["a"]))
  /\ aut.ph = "done" =>
       /\ Values(Headers(inb["a"]), KeyName) = {aut.key} /\ aut.key = <<107, 49>>
       /\ RequestTokens(inb["a"]) = {TokenFrom(aut.cookies, 1, TRUE)}
  /\ outb["a"] # << >> => MayWrite("a", << >>)
(* and in every final state what is due has been reported: a request that was *)
(* sent in full makes the server ready, with the token of its cookie line     *)
Final == (rep["a"] # "none" \/ ENABLED Next) /\ (rep["a"] # "none" => Settled("a"))
TokenOf(h) == LET c == {h[i] : i \in DOMAIN h} \cap CookieLines IN
  IF c = {} \/ c \subseteq {7, 8} THEN << >> ELSE <<116>>
Meaning ==
  /\ rep["a"] = "ready" <=> (aut.ph = "done" /\ rep["a"] # "none")
  /\ (wire = << >> /\ first = 1 /\ rep["a"] # "none") => rep["a"] = "ready"
  /\ (aut.ph = "done" => RequestTokens(inb["a"]) = {TokenOf(hs)})
Case == (Cases /\ TLCGet("level") = 1) => PrintT(<<"CASE", ToJson([first |-> FirstLines[first],
                                    lines |-> [i \in DOMAIN hs |-> HeaderLines[hs[i]]], kinds |-> hs])>>)
=============================================================================
