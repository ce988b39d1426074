SPECIFICATION Spec
INVARIANTS NoDangling OneRowEach RoundTrip KeysKept OneChanged Goes Cases
CHECK_DEADLOCK FALSE
