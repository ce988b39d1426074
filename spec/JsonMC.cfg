SPECIFICATION Spec
CONSTANTS
  Cases = TRUE
INVARIANTS RoundTrip OneMeaning Case
CHECK_DEADLOCK FALSE
