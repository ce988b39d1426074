------------------------------ MODULE Message ------------------------------
(* What a message says: an action on a path, with the parts it was given.     *)
(* "-" stands for a part that was not given.                                  *)
(*   ch up/down, act create/read/update/delete                                *)
(*   par the keys above, key the last key ("-": a create without a key yet)   *)
(*   kt the type of the last key: num, str, empty                             *)
(*   uid, ut its type: none, num, id                                          *)
(*   val, priv, conf                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Actions == {"create", "read", "update", "delete"}
(* a uid identifies a key when a key can be made of it                        *)
Identifies(ut, kt) == <<ut, kt>> \in {<<"num", "num">>, <<"id", "str">>, <<"none", "empty">>}
KeyOf(m) == IF m.kt = "empty" THEN "unit" ELSE m.uid
Keyless(m) == m.act = "create" /\ m.key = "-"
Normalizable(m) == ~Keyless(m) \/ Identifies(m.ut, m.kt)
NeedsKey(m) == m.ch = "up" /\ ~Normalizable(m)
NormalPath(m) == IF Keyless(m) THEN Append(m.par, KeyOf(m)) ELSE Append(m.par, m.key)

WellFormed(m) ==
  /\ m.key = "-" => m.act = "create"
  /\ (m.ut = "none") = (m.uid = "-")
  /\ (m.val = "-") = (m.act = "delete" \/ (m.act = "read" /\ m.ch = "up"))
  /\ m.priv # "-" => m.ch = "up" /\ m.act = "create"
  /\ m.conf # "-" => m.ch = "down" /\ m.act # "read"
  /\ m.ch = "down" => Normalizable(m)

(* another i-th key makes another path; the one key "unit" has no other       *)
ChangesKey(m, i) ==
  \/ i \in 1..Len(m.par)
  \/ i = Len(m.par) + 1 /\ ~Keyless(m) /\ m.kt # "empty"

(* what reading its parts shows                                               *)
Given(s) == SelectSeq(s, LAMBDA x : x \notin {"-", "nf"})     \* "nf" (not found) has no content
Shown(m) ==
  [ ch |-> m.ch, act |-> m.act,
    path |-> IF Keyless(m) THEN Append(m.par, "?") ELSE Append(m.par, m.key),
    uid |-> m.uid, val |-> m.val, priv |-> m.priv,
    hasconf |-> m.conf # "-", conf |-> m.conf = "true",
    norm |-> IF Normalizable(m) THEN NormalPath(m) ELSE <<"-">>,
    needs |-> NeedsKey(m),
    \* its path as a sequence of the keys it has that say something
    keys |-> IF Keyless(m) \/ m.kt = "empty" THEN m.par ELSE Append(m.par, m.key),
    \* is it the same path when no key / its first / second / third key is another
    eq |-> [i \in 1..4 |-> ~ChangesKey(m, i - 1)],
    \* as a sequence: what was given, in this order
    parts |-> Given(<<"path", m.uid, m.val>> \o <<m.priv>> \o <<m.conf>>) ]

(* the answer [to, conf, key, val] makes of an upstream message               *)
CanConvert(m, c) ==
  /\ m.ch = "up"
  /\ CASE c.to = "plain" -> m.act # "read" /\ ~NeedsKey(m)
       [] c.to = "key" -> Keyless(m)
       [] c.to = "read" -> m.act = "read"
Convert(m, c) ==
  CASE c.to = "plain" -> [m EXCEPT !.ch = "down", !.priv = "-", !.conf = c.conf]
    [] c.to = "key" -> [m EXCEPT !.ch = "down", !.priv = "-", !.conf = c.conf, !.key = c.key]
    [] c.to = "read" -> [m EXCEPT !.ch = "down", !.val = c.val]

(* what every conversion has to keep                                          *)
Keeps(m, d) ==
  /\ d.ch = "down" /\ d.act = m.act /\ d.par = m.par /\ d.uid = m.uid
  /\ m.val # "-" => d.val = m.val
  /\ d.priv = "-"
  /\ (~Keyless(m) => Shown(d).path = Shown(m).path)
  /\ (Normalizable(m) /\ d.key = m.key => Normalizable(d) /\ NormalPath(d) = NormalPath(m))
=============================================================================
