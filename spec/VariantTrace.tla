---------------------------- MODULE VariantTrace ---------------------------
EXTENDS Variant, TraceLib
VARIABLES cfg, regs
tvars == <<l, cfg, regs>>
TraceInit == l = 1 /\ cfg = "plain" /\ regs = << >>
Shown == \A i \in DOMAIN regs' : regs'[i] # Lost => E.looks[i] = Looks(cfg', regs'[i])
Equal == \A i, j \in DOMAIN regs' : regs'[i] # Lost /\ regs'[j] # Lost => E.eq[i][j] = Same(regs', i, j)
TReset == IsEvent("reset") /\ cfg' = E.cfg /\ regs' = [i \in 1..E.n |-> Fresh(E.cfg)] /\ Shown /\ Equal
TStep ==
  /\ IsEvent("step") /\ Possible(cfg, regs, E.op)
  /\ regs' = After(cfg, regs, E.op) /\ UNCHANGED cfg
  /\ Shown /\ Equal
TraceNext == TReset \/ TStep
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
