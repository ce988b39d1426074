SPECIFICATION TraceSpec
CONSTANTS
  Focus = "C02"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
