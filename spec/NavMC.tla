------------------------------- MODULE NavMC --------------------------------
(* One who goes to routes and back and forth, starting and leaving.           *)
EXTENDS Nav, TLC, Json
CONSTANTS MaxHist, Cases
A == 97
Table == << [name |-> << >>, ms |-> << >>], [name |-> <<A>>, ms |-> <<<<50, 53, 53>>>>], [name |-> <<98>>, ms |-> <<<< >>>>],
            [name |-> <<A, 98>>, ms |-> <<<<50, 53, 53>>, << >>>>], [name |-> <<50>>, ms |-> << >>] >>
Prefs == {<< >>, <<47, A>>}
Routes1 == {NotFound, [r |-> 1, vs |-> << >>], [r |-> 2, vs |-> <<<<50>>>>], [r |-> 3, vs |-> <<<<A, 32, 37>>>>], [r |-> 3, vs |-> <<<<37, 50, 48>>>>],
            [r |-> 3, vs |-> <<<<63, 228 - 33, 164, 0>>>>]}
Texts == {<<47, 98, 47, 98>>, <<47, 98, 47, 32, 47>>, <<47, 122>>}
Visits == {<<47>>, <<47, A>>, <<47, A, 47, A, 47, 50>>, <<47, A, 47, 98, 47, 37, 50, 48>>, <<47, 98, 47, 37, 122>>}
VARIABLES prefix, h, up, store
vars == <<prefix, h, up, store>>
None == [text |-> << >>, route |-> NotFound]
Sync(p, addr) == IF Telling(p, addr) THEN Said(Table, p, addr) ELSE None
Init == prefix \in Prefs /\ h = [hist |-> <<<<47>>>>, at |-> 1] /\ up = FALSE /\ store = None
(* what the browser makes of an address it is given                           *)
Cut(u) == IF \E i \in DOMAIN u : u[i] \in {63, 35} THEN SubSeq(u, 1, (CHOOSE i \in DOMAIN u : u[i] \in {63, 35} /\ \A j \in 1..(i - 1) : u[j] \notin {63, 35}) - 1) ELSE u
Browsers(u) == LET c == Cut(u) IN FlattenSeq([i \in DOMAIN c |-> IF c[i] <= 32 \/ c[i] > 126 THEN <<Percent, Hex(c[i] \div 16), Hex(c[i] % 16)>> ELSE <<c[i]>>])
To(t) == h' = Push(h, Browsers(prefix \o Encode(t)))
Go(x) == /\ up /\ (IF x = NotFound THEN h' = h ELSE To(Written(Table, x)))
         /\ store' = Sync(prefix, Address(h')) /\ UNCHANGED <<prefix, up>>
Text(t) == up /\ To(t) /\ store' = Sync(prefix, Address(h')) /\ UNCHANGED <<prefix, up>>
Walk(d) == h' = Moved(h, d) /\ store' = (IF up THEN Sync(prefix, Address(h')) ELSE store) /\ UNCHANGED <<prefix, up>>
Visit(s) == ~up /\ h' = Push(h, s) /\ UNCHANGED <<prefix, up, store>>
Start == ~up /\ up' = TRUE /\ store' = Sync(prefix, Address(h)) /\ UNCHANGED <<prefix, h>>
Stop == up /\ up' = FALSE /\ store' = None /\ UNCHANGED <<prefix, h>>
Rec(s1, op) == Cases => PrintT(<<"EDGE", ToJson(<<prefix, h, up, store>>), ToJson(op), ToJson(<<prefix', h', up', store'>>)>>)
Next == \/ \E x \in Routes1 : Go(x) /\ Rec(1, [op |-> "go", x |-> x])
        \/ \E t \in Texts : Text(t) /\ Rec(1, [op |-> "text", s |-> t])
        \/ \E s \in Visits : Visit(s) /\ Rec(1, [op |-> "visit", s |-> s])
        \/ Walk(1) /\ Rec(1, [op |-> "forward"])
        \/ Walk(0 - 1) /\ Rec(1, [op |-> "back"])
        \/ Start /\ Rec(1, [op |-> "start"])
        \/ Stop /\ Rec(1, [op |-> "stop"])
Spec == Init /\ [][Next]_vars
Short == Len(h.hist) <= MaxHist
(* ------------------------------------------------------------------------- *)
Agree == up => Agrees(Table, prefix, Address(h), store.text, store.route)
(* where one goes, there one is; and is again after going back and forth      *)
There == [][\A x \in Routes1 : (Go(x) /\ x # NotFound) => store'.route = x /\ store'.text = Written(Table, x)]_vars
Again == up => \A d \in {1, 0 - 1} : h.at + d \in DOMAIN h.hist => Moved(Moved(h, d), 0 - d) = h
Codec == \A t \in Texts \cup {Written(Table, x) : x \in Routes1 \ {NotFound}} :
           Sayable(t) /\ Decode(Encode(t)) = t /\ Encoded(Encode(t)) /\ Says(prefix, Browsers(prefix \o Encode(t)), t)
=============================================================================
