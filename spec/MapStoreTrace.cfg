SPECIFICATION TraceSpec
CONSTANTS
  Keys = {}
  Vals = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
