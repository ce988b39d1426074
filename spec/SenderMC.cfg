SPECIFICATION Spec
CONSTANTS
  Maxes = {1, 5, 125, 126, 1000, 65535, 65536, 100000}
  Sizes = {0, 1, 2, 5, 6, 125, 126, 127, 250, 252, 253, 1000, 2001, 65535, 65536, 65537, 131073, 300000}
  Cases = TRUE
INVARIANTS Arrived Whole NeverLarger Case
CHECK_DEADLOCK FALSE
