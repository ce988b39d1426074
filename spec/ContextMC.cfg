SPECIFICATION Spec
CONSTANTS
  Focus = "all"
  MaxMarks = 2
  AnyOrder = FALSE
INVARIANTS Routing AppliedFirst Notified AppliedOnce ListenersOnce Case
CHECK_DEADLOCK FALSE
