SPECIFICATION Spec
INVARIANT Kept
INVARIANT Answered
INVARIANT OneWay
INVARIANT Case
CHECK_DEADLOCK FALSE
