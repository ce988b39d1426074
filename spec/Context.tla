------------------------------- MODULE Context -------------------------------
(* nbdl::context (include/nbdl/context.hpp): what happens while a message is   *)
(* pushed.  Pushes nest (an actor may push while it handles a message), so the *)
(* state is a stack of frames; a frame records what its push still owes:       *)
(*   apply    the store of the path has not been given the message yet         *)
(*   deliver  actors that have to be given `out`, in this order                *)
(*   notify   observers that have to be told that the message's path changed   *)
(*   foreign  listening stores that have to be offered the message             *)
(*   marks    <<path, observer>> notifications owed to paths marked by those   *)
(* Within one push only the claimed order is required: apply comes first,      *)
(* deliveries come in the declared order; the rest may come in any order.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Focus   \* "all", or the property whose obligations count: "C01" deliveries,
                 \* "C02" application and notification, "C03" deliveries and what is shown

VARIABLES cfg,     \* the context definition (see Def below)
          stack,   \* frames of pushes and looks in progress
          shown    \* what every instance path shows: path -> "trigger"|"unresolved"|value

cvars == <<cfg, stack, shown>>

(* cfg: [nprod, ncons: Nat,  obs: set of actor indices (state observers),      *)
(*       owner: path type -> producer index,                                   *)
(*       listen: path type -> set of path types whose stores listen to it,     *)
(*       kind: path type -> "mock" | "map" | "null"]                           *)
Consumers == [i \in 1..cfg.ncons |-> cfg.nprod + i - 1]

(* a message: [kind, pt, a, b, val, uid, conf];  its path: [pt, a, b]          *)
PathOf(m) == [pt |-> m.pt, a |-> m.a, b |-> m.b]
IsUp(m)   == m.kind \in {"up_create", "up_create_nokey", "up_create_uid", "up_create_empty",
                         "up_read", "up_update", "up_delete"}
WithApply   == Focus \in {"all", "C02"}
WithDeliver == Focus \in {"all", "C01", "C03"}
Status(p) == IF p \in DOMAIN shown THEN shown[p] ELSE "trigger"
Known(s)  == s \notin {"trigger", "unresolved"}

Answer(m, v) == [m EXCEPT !.kind = "down_read", !.val = v, !.conf = "none"]

\* what a built-in map store shows after a message (MapStore.tla), and whether it changed
MapShown(s, m) ==
  CASE m.kind = "up_read" -> IF s = "trigger" THEN "unresolved" ELSE s
    [] m.kind \in {"down_create", "down_update"} -> m.val
    [] m.kind = "down_read" -> IF Known(s) THEN s ELSE m.val
    [] m.kind = "down_delete" -> "trigger"
    [] OTHER -> s
MapChanged(s, m) == m.kind \in {"down_create", "down_update", "down_delete"}
                    \/ (m.kind = "down_read" /\ ~ Known(s))

Kind(m) == cfg.kind[m.pt]

----------------------------------------------------------------------------
(* The frame of a push that begins now.                                        *)
Frame(m, look) ==
  LET s     == Status(PathOf(m))
      keyed == m.kind # "up_create_nokey"
      isrd  == m.kind = "up_read"
      ch    == Kind(m) = "map" /\ MapChanged(s, m)
  IN [m       |-> m,
      look    |-> look,     \* "no", or the look that caused this read: "ask", "plain"
      out     |-> IF isrd /\ Known(s) THEN Answer(m, s) ELSE m,
      apply   |-> WithApply /\ keyed /\ Kind(m) = "mock",
      deliver |-> IF ~ WithDeliver THEN << >>
                  ELSE IF isrd
                    THEN IF s = "trigger" THEN <<cfg.owner[m.pt]>>
                         ELSE IF s = "unresolved" THEN << >> ELSE Consumers
                  ELSE IF IsUp(m) THEN <<cfg.owner[m.pt]>> ELSE Consumers,
      notify  |-> IF WithApply /\ ch /\ ~ isrd THEN cfg.obs ELSE {},
      foreign |-> IF WithApply /\ keyed THEN cfg.listen[m.pt] ELSE {},
      marks   |-> << >>]

Top == stack[Len(stack)]
Upd(f) == [stack EXCEPT ![Len(stack)] = f]

(* a map store takes the message when the push begins: it has no observable    *)
(* step of its own                                                             *)
Begin(m) ==
  /\ stack' = Append(stack, Frame(m, "no"))
  /\ shown' = IF Kind(m) = "map"
                THEN (PathOf(m) :> MapShown(Status(PathOf(m)), m)) @@ shown
                ELSE shown
  /\ UNCHANGED cfg

(* Looking at a value: an unknown one starts a read, anything else is shown.   *)
LookRead(p) == [kind |-> "up_read", pt |-> p.pt, a |-> p.a, b |-> p.b,
                val |-> "none", uid |-> "none", conf |-> "none"]
BeginLook(p) ==
  LET s == Status(p) IN
  IF s = "trigger"
    THEN /\ stack' = Append(stack, Frame(LookRead(p), "ask"))
         /\ shown' = IF cfg.kind[p.pt] = "map"
                       THEN (p :> MapShown(s, LookRead(p))) @@ shown ELSE shown
         /\ UNCHANGED cfg
    ELSE /\ stack' = Append(stack, [Frame(LookRead(p), "plain") EXCEPT
                       !.apply = FALSE, !.deliver = << >>, !.notify = {}, !.foreign = {}])
         /\ UNCHANGED <<shown, cfg>>

(* The store of the path is given the message, once, and answers.              *)
Apply(m, changed) ==
  /\ stack # << >> /\ Top.apply /\ m = Top.m
  /\ stack' = Upd([Top EXCEPT !.apply = FALSE,
                     !.notify = IF changed /\ m.kind # "up_read" THEN cfg.obs ELSE {}])
  /\ UNCHANGED <<cfg, shown>>

(* One actor is given the message (or the answer).                             *)
Deliver(actor, m) ==
  /\ stack # << >> /\ ~ Top.apply
  /\ Top.deliver # << >> /\ Head(Top.deliver) = actor /\ m = Top.out
  /\ stack' = Upd([Top EXCEPT !.deliver = Tail(@)])
  /\ UNCHANGED <<cfg, shown>>

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* One observer is told that a path changed.                                   *)
Notify(actor, p) ==
  /\ stack # << >> /\ ~ Top.apply
  /\ \/ /\ actor \in Top.notify /\ p = PathOf(Top.m)
        /\ stack' = Upd([Top EXCEPT !.notify = @ \ {actor}])
     \/ /\ ~ (actor \in Top.notify /\ p = PathOf(Top.m))
        /\ \E i \in DOMAIN Top.marks : Top.marks[i] = <<p, actor>>
        /\ LET i == CHOOSE j \in DOMAIN Top.marks : Top.marks[j] = <<p, actor>>
           IN stack' = Upd([Top EXCEPT !.marks = RemoveAt(@, i)])
  /\ UNCHANGED <<cfg, shown>>

RECURSIVE Owed(_, _)
Owed(paths, obs) ==     \* every marked path, to every observer
  IF paths = << >> THEN << >>
  ELSE LET os == CHOOSE s \in [1..Cardinality(obs) -> obs] :
                   \A i, j \in DOMAIN s : i # j => s[i] # s[j]
       IN [i \in 1..Cardinality(obs) |-> <<Head(paths), os[i]>>] \o Owed(Tail(paths), obs)

(* A listening store is offered the message and marks some of its own paths.   *)
Foreign(pt, m, paths) ==
  /\ stack # << >> /\ ~ Top.apply
  /\ pt \in Top.foreign /\ m = Top.m
  /\ \A i \in DOMAIN paths : paths[i].pt = pt
  /\ stack' = Upd([Top EXCEPT !.foreign = @ \ {pt}, !.marks = @ \o Owed(paths, cfg.obs)])
  /\ UNCHANGED <<cfg, shown>>

Settled(f) == ~ f.apply /\ f.deliver = << >> /\ f.notify = {} /\ f.foreign = {} /\ f.marks = << >>

Done ==
  /\ stack # << >> /\ Settled(Top) /\ Top.look = "no"
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<cfg, shown>>

(* A look ends by showing the value; one that had to ask shows 'unresolved'    *)
(* (or already the answer, if that came meanwhile).                            *)
Shows(p, s) ==
  /\ stack # << >> /\ Settled(Top) /\ Top.look # "no" /\ p = PathOf(Top.m)
  /\ \/ Top.look = "plain" /\ s = Status(p)
     \/ Top.look = "ask" /\ (s = "unresolved" \/ (Known(s) /\ s = Status(p)))
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<cfg, shown>>

(* the environment decides what a mock store shows                             *)
SetStatus(p, s) ==
  /\ shown' = (p :> s) @@ shown
  /\ UNCHANGED <<cfg, stack>>
=============================================================================
