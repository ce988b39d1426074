SPECIFICATION Spec
CONSTANTS
  Pair = FALSE
  MaxSend = 3
  MaxRaw = 1
  Edges = TRUE
  Closes = TRUE
  Faults = FALSE
VIEW View
INVARIANTS Faithful NothingBeforeStart ToldOnce ToldWhenBoth CloseLast Owed
PROPERTIES SilentAfterClose SilentAfterStop
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
