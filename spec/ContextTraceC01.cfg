SPECIFICATION TraceSpec
CONSTANTS
  Focus = "C01"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
