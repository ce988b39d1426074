SPECIFICATION Spec
CONSTANTS
  NRuns = 1
  MaxSteps = 9
  Edges = FALSE
INVARIANTS InOrder OneHandler NothingAfterEnd NoHandlerWithoutRejection EveryStageRan
CHECK_DEADLOCK FALSE
