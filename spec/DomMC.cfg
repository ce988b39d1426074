SPECIFICATION Spec
INVARIANTS Same Still AllNeat AllOnce OneEach Bubbles
CHECK_DEADLOCK FALSE
