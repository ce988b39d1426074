SPECIFICATION TraceSpec
CONSTANTS
  Check = {"C11"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
