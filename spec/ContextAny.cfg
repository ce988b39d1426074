SPECIFICATION Spec
CONSTANTS
  Focus = "all"
  MaxMarks = 1
  AnyOrder = TRUE
INVARIANTS Routing AppliedFirst Notified AppliedOnce ListenersOnce
CHECK_DEADLOCK FALSE
