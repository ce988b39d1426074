SPECIFICATION Spec
INVARIANTS Agree Elsewhere Case
CHECK_DEADLOCK FALSE
