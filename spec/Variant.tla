------------------------------ MODULE Variant ------------------------------
(* Registers that hold a variant each.  A value is a sequence of strings:     *)
(* its type and then what it holds; a nested variant holds a value again.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Alts == [ plain |-> <<"unresolved", "int", "string", "empty", "hollow", "ints">>,
          option |-> <<"nothing", "string">>,
          nested |-> <<"unresolved", "int", "inner", "outer">>,
          holder |-> <<"unresolved", "int", "string", "empty", "hollow", "ints">>,
          inner |-> <<"unresolved", "string", "int", "empty">>,
          outer |-> <<"nothing", "inner">> ]
Variants == {"inner", "outer"}
Hollow == {"unresolved", "nothing", "empty", "hollow"}   \* types without content
RECURSIVE Default(_)
Default(type) == CASE type = "int" -> <<"int", "0">>
                   [] type = "string" -> <<"string", "">>
                   [] type = "ints" -> <<"ints", "">>
                   [] type \in Variants -> <<type>> \o Default(Alts[type][1])
                   [] OTHER -> <<type>>
Fresh(cfg) == Default(Alts[cfg][1])
IdOf(cfg, r) == (CHOOSE i \in DOMAIN Alts[cfg] : Alts[cfg][i] = Head(r)) - 1
RECURSIVE Leaf(_)
Leaf(r) == IF Head(r) \in Variants THEN Leaf(Tail(r)) ELSE r
Lost == <<"moved">>

(* the register contents after an operation [o, i, j, v, id]                  *)
After(cfg, regs, op) ==
  CASE op.o = "set" -> [regs EXCEPT ![op.i] = op.v]
    [] op.o \in {"copy", "assign"} -> [regs EXCEPT ![op.i] = regs[op.j]]
    [] op.o \in {"move", "take"} -> IF op.i = op.j THEN [regs EXCEPT ![op.i] = Lost]
                                    ELSE [regs EXCEPT ![op.i] = regs[op.j], ![op.j] = Lost]
    [] op.o = "fresh" -> [regs EXCEPT ![op.i] = Fresh(cfg)]
    \* load: the type id says what is loaded; out of range or given up: nothing changes
    [] op.o = "load" -> IF op.id \in 0..(Len(Alts[cfg]) - 1) THEN [regs EXCEPT ![op.i] = op.v] ELSE regs
    [] op.o = "fail" -> regs
    \* changed in place through a match
    [] op.o = "poke" -> IF Len(regs[op.i]) = 2 /\ Head(regs[op.i]) = Head(op.v) THEN [regs EXCEPT ![op.i] = op.v] ELSE regs
Possible(cfg, regs, op) ==
  /\ op.o \in {"copy", "assign", "move", "take"} => regs[op.j] # Lost
  /\ op.o = "poke" => regs[op.i] # Lost /\ Len(op.v) = 2
  /\ op.o = "load" => (op.id \in 0..(Len(Alts[cfg]) - 1) => IdOf(cfg, op.v) = op.id)

(* what looking at a register shows                                           *)
Looks(cfg, r) ==
  [ id |-> IdOf(cfg, r),
    is |-> <<Head(r)>>,                           \* the types is<T> holds for
    calls |-> <<Leaf(r)>>,                        \* of match with a function per type
    when |-> <<Leaf(r)>>,                         \* of match_when<T>, over all T
    bound |-> IF Head(r) \in Hollow THEN << <<ToString(IdOf(cfg, r))>> >> ELSE << <<ToString(IdOf(cfg, r))>>, r >> ]
Same(regs, i, j) == regs[i] = regs[j]
=============================================================================
