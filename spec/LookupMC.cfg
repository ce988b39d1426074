SPECIFICATION Spec
INVARIANTS Settled Missing OneByOne PutSeen ActOnly Cases
CHECK_DEADLOCK FALSE
