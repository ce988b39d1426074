SPECIFICATION Spec
INVARIANTS Once Twice
PROPERTIES Others
CHECK_DEADLOCK FALSE
