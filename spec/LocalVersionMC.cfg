SPECIFICATION Spec
CONSTANTS
  C = 2
  N = 2
  Deltas <- D3
  Fulls <- F1
  MaxLocal = 3
  MaxLog = 3
  Edges = FALSE
VIEW View
INVARIANTS AgreedIsFold QuietShowsAgreed Converged
PROPERTIES NoFlicker ForeignAtOnce
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
