SPECIFICATION Spec
VIEW View
INVARIANTS Sound
PROPERTIES Independent LastPut
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
