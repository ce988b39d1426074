---------------------------- MODULE CookiesTrace ----------------------------
EXTENDS Cookies, TraceLib
TraceInit == l = 1
TReset == IsEvent("reset")
TGet == IsEvent("get") /\ E.value = Session(E.s)
TraceNext == TReset \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
