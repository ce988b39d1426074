---------------------------- MODULE Base64Trace ----------------------------
EXTENDS Base64, TraceLib

TraceInit == l = 1
TReset == IsEvent("reset")
TEnc == IsEvent("enc") /\ EncodeOk(E.b, E.t)
TDec == IsEvent("dec") /\ DecodeOk(E.t, E.kind, E.room, E.ok, E.b)
TVal == IsEvent("val") /\ DecodeValueOk(E.t, E.b)
TraceNext == TReset \/ TEnc \/ TDec \/ TVal
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
