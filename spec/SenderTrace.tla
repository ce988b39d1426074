---------------------------- MODULE SenderTrace ----------------------------
EXTENDS Sender, TraceLib
tvars == <<l, svars>>
TraceInit == l = 1 /\ max = 0 /\ cur = << >> /\ broken = FALSE
TReset == IsEvent("reset") /\ Fresh(E.max)
TSend == IsEvent("send") /\ Send(E.op, E.p)
TFrame == IsEvent("frame") /\ Frame(E.op, E.fin, E.plain, E.form, E.p)
TSent == IsEvent("sent") /\ Sent
TFailed == IsEvent("failed") /\ Failed
TBreak == IsEvent("break") /\ Break
TSettled == IsEvent("settled") /\ Settled
TraceNext == TReset \/ TSend \/ TFrame \/ TSent \/ TFailed \/ TBreak \/ TSettled
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
