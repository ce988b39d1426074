SPECIFICATION Spec
CONSTANTS
  C = 2
  N = 2
  Deltas <- D2
  Fulls <- F1
  MaxLocal = 2
  MaxLog = 3
  Edges = TRUE
VIEW View
INVARIANTS AgreedIsFold QuietShowsAgreed Converged
PROPERTIES NoFlicker ForeignAtOnce
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
