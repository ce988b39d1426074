SPECIFICATION Spec
CONSTANTS
  Pair = FALSE
  MaxSend = 2
  MaxRaw = 3
  Edges = FALSE
  Closes = TRUE
  Faults = TRUE
VIEW View
INVARIANTS Faithful NothingBeforeStart ToldOnce ToldWhenBoth CloseLast Owed
PROPERTIES SilentAfterClose SilentAfterStop
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
