SPECIFICATION Spec
INVARIANTS FirstWins LaterIgnored BodyTaken Together Flat One NodeByNode Cases
CHECK_DEADLOCK FALSE
