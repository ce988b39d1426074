SPECIFICATION Spec
VIEW View
INVARIANTS NoneTwice Found Known Equivalence
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
