SPECIFICATION Spec
CONSTANTS
  Pair = TRUE
  MaxSend = 2
  MaxRaw = 0
  Edges = FALSE
  Closes = TRUE
  Faults = FALSE
VIEW View
INVARIANTS Faithful NothingBeforeStart ToldOnce ToldWhenBoth CloseLast Owed
PROPERTIES SilentAfterClose SilentAfterStop
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
