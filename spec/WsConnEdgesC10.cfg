SPECIFICATION Spec
CONSTANTS
  Pair = FALSE
  MaxSend = 0
  MaxRaw = 5
  Edges = TRUE
  Closes = FALSE
  Faults = TRUE
VIEW View
INVARIANTS Faithful NothingBeforeStart ToldOnce ToldWhenBoth CloseLast Owed
PROPERTIES SilentAfterClose SilentAfterStop
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
