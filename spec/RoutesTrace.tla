---------------------------- MODULE RoutesTrace -----------------------------
EXTENDS Routes, TraceLib
VARIABLE table
tvars == <<l, table>>
TraceInit == l = 1 /\ table = << >>
TReset == IsEvent("reset") /\ table' = E.table
(* from_string                                                                *)
TRead == IsEvent("read") /\ E.got = Read(table, E.s) /\ UNCHANGED table
(* to_string, and back; the route made of it by to_variant and set_route      *)
TWrite == /\ IsEvent("write")
          /\ E.s = Written(table, E.x)
          /\ (Proper(table, E.x) => E.back = E.x)
          /\ E.back = Read(table, E.s)
          /\ E.variant = E.x /\ E.sent = <<E.x>>
          /\ UNCHANGED table
TraceNext == TReset \/ TRead \/ TWrite
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
