SPECIFICATION Spec
INVARIANTS Agree RoundTrip Case
CHECK_DEADLOCK FALSE
