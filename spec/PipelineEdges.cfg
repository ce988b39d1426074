SPECIFICATION Spec
CONSTANTS
  NRuns = 1
  MaxSteps = 30
  Edges = TRUE
VIEW ViewE
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
