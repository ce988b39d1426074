----------------------------- MODULE JsonTrace -----------------------------
EXTENDS JsonDoc, TraceLib
TraceInit == l = 1
TReset == IsEvent("reset")
(* a value was written: the document stands for it                            *)
TWrite == IsEvent("write") /\ Stands(Types[E.type], E.val, E.doc)
(* a document was read: as the value it stands for, or it stands for none     *)
TRead == IsEvent("read") /\ ReadOk(Types[E.type], E.doc, E.ok, E.val)
(* what was written is read back as the same value                            *)
TBack == IsEvent("back") /\ E.ok /\ E.val = E.was /\ E.equal
(* reading leaves the document as it was, and nothing else behind             *)
TKept == IsEvent("kept") /\ E.doc = E.was /\ E.live = 1
TraceNext == TReset \/ TWrite \/ TRead \/ TBack \/ TKept
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
