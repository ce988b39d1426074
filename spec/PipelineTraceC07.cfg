SPECIFICATION TraceSpec
CONSTANTS
  Focus = "C07"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
