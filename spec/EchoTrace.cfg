SPECIFICATION TraceSpec
CONSTANTS
  Focus = "all"
CONSTRAINT TraceFar
POSTCONDITION TraceFarAccepted
CHECK_DEADLOCK FALSE
