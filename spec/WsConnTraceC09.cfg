SPECIFICATION TraceSpec
CONSTANTS
  Check = {"C09"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
