SPECIFICATION Spec
VIEW View
INVARIANTS Same Half
PROPERTIES OneStep
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
