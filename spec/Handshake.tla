----------------------------- MODULE Handshake -----------------------------
(* The opening handshake of a websocket connection, byte by byte.             *)
(*                                                                            *)
(* First part: what the exchanged bytes mean (declarative).                   *)
(* Second part: sides that receive and write bytes and report at most once.   *)
EXTENDS Codec

RequestLine == <<71, 69, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10>>
KeyName == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 107, 101, 121>>
CookieName == <<99, 111, 111, 107, 105, 101, 115>>
OriginName == <<111, 114, 105, 103, 105, 110>>
AuthEq == <<110, 98, 100, 108, 95, 97, 117, 116, 104, 61>>
Guid == <<50, 53, 56, 69, 65, 70, 65, 53, 45, 69, 57, 49, 52, 45, 52, 55, 68, 65, 45, 57, 53,
    67, 65, 45, 67, 53, 65, 66, 48, 68, 67, 56, 53, 66, 49, 49>>
ResponseStart == <<72, 84, 84, 80, 47, 49, 46, 49, 32, 49, 48, 49, 32, 83, 119, 105, 116, 99,
    104, 105, 110, 103, 32, 80, 114, 111, 116, 111, 99, 111, 108, 115, 13, 10, 85, 112, 103,
    114, 97, 100, 101, 58, 32, 119, 101, 98, 115, 111, 99, 107, 101, 116, 13, 10, 67, 111,
    110, 110, 101, 99, 116, 105, 111, 110, 58, 32, 85, 112, 103, 114, 97, 100, 101, 13, 10,
    83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 65, 99, 99, 101, 112, 116,
    58, 32>>
CrLf2 == <<13, 10, 13, 10>>
SampleKey == <<100, 71, 104, 108, 73, 72, 78, 104, 98, 88, 66, 115, 90, 83, 66, 117, 98, 50,
    53, 106, 90, 81, 61, 61>>

(* ------------------------------------------------------------- requests -- *)
Ends(b) == {i \in 1..(Len(b) - 1) : b[i] = 13 /\ b[i + 1] = 10}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the blank line that ends the header lines h                                *)
Blank(h) == LET e == Ends(h) IN {i \in e : i = 1 \/ (i - 2) \in e}
Whole(h) == Blank(h) # {}
RECURSIVE LinesFrom(_, _, _)
LinesFrom(h, i, ends) ==
  LET next == {e \in ends : e >= i} IN
  IF next = {} \/ MinOf(next) = i THEN << >>
  ELSE LET e == MinOf(next) IN << SubSeq(h, i, e - 1) >> \o LinesFrom(h, e + 2, ends)
Lines(h) == LinesFrom(h, 1, Ends(h))
Colon(line) == Find(line, 1, 58)
HasColon(line) == Colon(line) <= Len(line)
NameOf(line) == Lower(SubSeq(line, 1, Colon(line) - 1))
ValueOf(line) == From(line, SkipSpaces(line, Colon(line) + 1))
Values(h, name) == LET ls == Lines(h) IN
  {ValueOf(ls[i]) : i \in {j \in DOMAIN ls : HasColon(ls[j]) /\ NameOf(ls[j]) = name}}

(* the request line is right / is already known to be wrong                   *)
GoodLine(b) == StartsWith(b, RequestLine)
WrongLine(b) == \E i \in 1..Len(RequestLine) : i <= Len(b) /\ b[i] # RequestLine[i]
Headers(b) == From(b, Len(RequestLine) + 1)
Complete(b) == GoodLine(b) /\ Whole(Headers(b))
(* a reader may give up on a line that is longer than this                    *)
LineLimit == 254
RECURSIVE LongFrom(_, _)
LongFrom(h, i) ==
  LET next == {e \in Ends(h) : e >= i} IN
  IF next = {} THEN Len(h) - i + 1 > LineLimit
  ELSE LET e == MinOf(next) IN
       IF e = i THEN FALSE ELSE (e - i > LineLimit) \/ LongFrom(h, e + 2)
TooLong(b) == GoodLine(b) /\ LongFrom(Headers(b), 1)

Accept(key) == Encode(Sha1(key \o Guid))
Response(key) == ResponseStart \o Accept(key) \o CrLf2

(* ------------------------------------------------------------- cookies --- *)
(* The value of the authentication cookie.  Pairs are separated by "; "; how  *)
(* a list without the space is read is left open (strict: one character is    *)
(* skipped whatever it is).                                                   *)
RECURSIVE TokenFrom(_, _, _)
TokenFrom(c, i, strict) ==
  IF i > Len(c) THEN << >>
  ELSE LET e == Find(c, i, 59) pair == SubSeq(c, i, e - 1) IN
       IF StartsWith(pair, AuthEq) THEN From(pair, Len(AuthEq) + 1)
       ELSE TokenFrom(c, IF strict \/ (e < Len(c) /\ c[e + 1] = 32) THEN e + 2 ELSE e + 1, strict)
Tokens(c) == {TokenFrom(c, 1, TRUE), TokenFrom(c, 1, FALSE)}

(* what a server may report for the request b, and what it has to write       *)
RequestTokens(b) ==
  LET cs == Values(Headers(b), CookieName) IN
  IF cs = {} THEN {<< >>} ELSE UNION {Tokens(c) : c \in cs}
Responses(b) == {Response(k) : k \in Values(Headers(b), KeyName)}
(* the request a client has to write                                          *)
ProperRequest(b, origin, token) ==
  /\ Complete(b)
  /\ LET h == Headers(b) IN
     /\ MinOf(Blank(h)) + 1 = Len(h)
     /\ Values(h, KeyName) = {SampleKey}
     /\ Values(h, OriginName) = {From(origin, SkipSpaces(origin, 1))}
     /\ RequestTokens(b) = {token}
\* Response(SampleKey), see HandshakeMC
Expected == ResponseStart \o <<115, 51, 112, 80, 76, 77, 66, 105, 84, 120, 97, 81, 57, 107, 89, 71, 122,
                               122, 104, 90, 82, 98, 75, 43, 120, 79, 111, 61>> \o CrLf2

(* ---------------------------------------------------------------- sides -- *)
(* role: "server" | "client" | "raw"; info: what a client was given           *)
VARIABLES role, info, inb, outb, over, rep
hvars == <<role, info, inb, outb, over, rep>>

(* the part of the input a side may act on                                    *)
Input(s, x) == inb' = [inb EXCEPT ![s] = @ \o x] /\ UNCHANGED <<role, info, outb, over, rep>>
(* the other side will send nothing more ("eof") or broke the connection      *)
Over(s, how) == over' = [over EXCEPT ![s] = how] /\ UNCHANGED <<role, info, inb, outb, rep>>

MayWrite(s, x) ==
  LET o == outb[s] \o x IN
  IF role[s] = "server"
  THEN Complete(inb[s]) /\ \E r \in Responses(inb[s]) : StartsWith(r, o)
  ELSE TRUE                      \* judged when the connection is ready, or at the end
Ready(s) ==
  IF role[s] = "server" THEN Complete(inb[s]) /\ outb[s] \in Responses(inb[s])
  ELSE StartsWith(inb[s], Expected) /\ ProperRequest(outb[s], info[s].origin, info[s].token)
Bad(s) ==
  IF role[s] = "server" THEN WrongLine(inb[s])
  ELSE \E i \in 1..Len(Expected) : i <= Len(inb[s]) /\ inb[s][i] # Expected[i]
Err(s) ==
  \/ over[s] = "reset"
  \/ over[s] = "eof" /\ IF role[s] = "server" THEN ~Complete(inb[s]) ELSE ~StartsWith(inb[s], Expected)
  \/ role[s] = "server" /\ TooLong(inb[s])
Report(s, what, token) ==
  /\ rep[s] = "none"
  /\ CASE what = "ready" -> Ready(s) /\ IF role[s] = "server" THEN token \in RequestTokens(inb[s]) ELSE token = << >>
       [] what = "bad" -> Bad(s)
       [] what = "err" -> Err(s)
  /\ rep' = [rep EXCEPT ![s] = what]
  /\ UNCHANGED <<role, info, inb, outb, over>>

(* nothing more can happen: what is due has been reported                     *)
Need(s) == IF role[s] = "server" THEN Len(RequestLine) ELSE Len(Expected)
Settled(s) ==
  \/ role[s] = "raw"
  \/ /\ (over[s] # "none") => rep[s] # "none"
     /\ over[s] # "reset" =>
          /\ (Bad(s) /\ Len(inb[s]) >= Need(s)) => rep[s] = "bad"
          /\ (role[s] = "server" /\ Complete(inb[s]) /\ ~TooLong(inb[s])) => rep[s] = "ready"
          /\ (role[s] = "client" /\ StartsWith(inb[s], Expected)) => rep[s] = "ready"
          /\ (role[s] = "client" /\ over[s] = "none") => ProperRequest(outb[s], info[s].origin, info[s].token)
=============================================================================
