SPECIFICATION TraceSpec
CONSTANTS
  Focus = "C08"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
