SPECIFICATION TraceSpec
CONSTANTS
  Focus = "C03"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
