---------------------------- MODULE SocketTrace -----------------------------
EXTENDS Socket, TraceLib
VARIABLES es, urls, had
tvars == <<l, es, urls, had>>
TraceInit == l = 1 /\ es = << >> /\ urls = << >> /\ had = << >>
TReset == IsEvent("reset") /\ es' = << >> /\ urls' = << >> /\ had' = << >>
(* the connection is the one asked for                                        *)
TStart == /\ IsEvent("start") /\ E.made = 1 /\ E.address = E.url /\ E.errors = << >> /\ E.heard = << >>
          /\ es' = Append(es, New(E.kind, E.react)) /\ urls' = Append(urls, E.url) /\ had' = Append(had, << >>)
(* payloads kept stay as they were                                            *)
Became(r) == /\ es' = [es EXCEPT ![E.i] = r.e]
             /\ had' = [had EXCEPT ![E.i] = @ \o SelectSeq(r.heard, LAMBDA x : x.n = "message")]
             /\ E.heard = [k \in DOMAIN r.heard |-> [i |-> E.i, n |-> r.heard[k].n, b |-> r.heard[k].b]]
             /\ E.sent = [k \in DOMAIN r.sent |-> [i |-> E.i, t |-> r.sent[k].t, b |-> r.sent[k].b]]
             /\ E.states = [i \in DOMAIN es' |-> State(es'[i])]
             /\ E.kept = [i \in DOMAIN had' |-> [k \in DOMAIN had'[i] |-> had'[i][k].b]]
             /\ UNCHANGED urls
Fine == E.errors = << >>
TOpen == IsEvent("open") /\ Became(Opened(es[E.i])) /\ Fine
TFrame == IsEvent("frame") /\ Became(Told(es[E.i], E.f)) /\ ((es[E.i].phase = "open" /\ es[E.i].live => Speaks(es[E.i].kind, E.f)) => Fine)
TGone == IsEvent("gone") /\ Became(Gone(es[E.i])) /\ Fine
TSend == IsEvent("send") /\ es[E.i].live /\ Became(Sent(es[E.i], E.ps)) /\ Fine
TClose == IsEvent("close") /\ es[E.i].live /\ Became([Quiet(es[E.i]) EXCEPT !.e = Closing(es[E.i])]) /\ Fine
TDrop == IsEvent("drop") /\ es[E.i].live /\ Became([Quiet(es[E.i]) EXCEPT !.e = Dropped(es[E.i])]) /\ Fine
(* nothing of those that are gone is left in the page                          *)
TEnd == IsEvent("end") /\ E.left = 0 /\ UNCHANGED <<es, urls, had>>
TraceNext == TReset \/ TStart \/ TOpen \/ TFrame \/ TGone \/ TSend \/ TClose \/ TDrop \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
