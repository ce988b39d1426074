SPECIFICATION Spec
CONSTANTS
  MaxHeaders = 2
  Cases = TRUE
INVARIANTS Agree Final Meaning Case
CHECK_DEADLOCK FALSE
