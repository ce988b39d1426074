SPECIFICATION Spec
CONSTANTS
  Focus = "all"
INVARIANTS Answered BeforeReturning Keys Stored NoWaiting Case
CHECK_DEADLOCK FALSE
