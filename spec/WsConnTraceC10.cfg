SPECIFICATION TraceSpec
CONSTANTS
  Check = {"C10"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
