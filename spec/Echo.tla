-------------------------------- MODULE Echo --------------------------------
(* A context some of whose producers are echo producers                       *)
(* (include/nbdl/echo_producer.hpp): what reaches one is pushed downstream    *)
(* again, at once.  The implied push is a frame of its own, above the one     *)
(* that caused it, whose look is "echo".                                      *)
EXTENDS Context
VARIABLES echo,    \* the producers that echo
          given,   \* path type -> the keys echo producers have given to creates
         units    \* path types whose last key is an empty type: there is only one
evars == <<cfg, stack, shown, echo, given, units>>

DownKind(k) == CASE k \in {"up_create", "up_create_nokey", "up_create_uid", "up_create_empty"} -> "down_create"
                 [] k = "up_read" -> "down_read"
                 [] k = "up_update" -> "down_update"
                 [] k = "up_delete" -> "down_delete"
Echoed(m, key) == [m EXCEPT !.kind = DownKind(m.kind), !.conf = "none",
                            !.val = IF m.kind = "up_read" THEN "nf" ELSE m.val,
                            !.b = IF m.kind = "up_create_nokey" THEN key ELSE m.b]

(* An echo producer is given the message: the answer is pushed, with a key no *)
(* other create under such a path was given.                                  *)
Reply(key) ==
  /\ stack # << >> /\ ~ Top.apply
  /\ Top.deliver # << >> /\ Head(Top.deliver) \in echo
  /\ Top.m.kind = "up_create_nokey" /\ Top.m.pt \notin units => key \notin given[Top.m.pt]
  /\ LET d == Echoed(Top.m, key) IN
     /\ stack' = Append(Upd([Top EXCEPT !.deliver = Tail(@)]), Frame(d, "echo"))
     /\ shown' = IF Kind(d) = "map" THEN (PathOf(d) :> MapShown(Status(PathOf(d)), d)) @@ shown ELSE shown
     /\ given' = IF Top.m.kind = "up_create_nokey" THEN [given EXCEPT ![d.pt] = @ \cup {key}] ELSE given
  /\ UNCHANGED <<cfg, echo, units>>
Replied ==
  /\ stack # << >> /\ Top.look = "echo" /\ Settled(Top)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<cfg, shown, echo, given, units>>
=============================================================================
