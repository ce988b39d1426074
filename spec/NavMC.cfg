SPECIFICATION Spec
CONSTRAINT Short
INVARIANTS Agree Again Codec
PROPERTIES There
CHECK_DEADLOCK FALSE
