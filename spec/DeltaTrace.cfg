SPECIFICATION TraceSpec
CONSTANTS
  N = 1
  Vals = {"0"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
