SPECIFICATION Spec
INVARIANTS Order
PROPERTIES Silence Forward
CHECK_DEADLOCK FALSE
