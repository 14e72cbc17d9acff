CONSTANTS
  N = 7
  FMAX = 5
  SKEW = 9
  LIMIT = 4
  EXTRA = 12
  BRUTE = 6
  Record = FALSE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Weights Tree Room Limiting Good Optimal Bounds
CHECK_DEADLOCK FALSE
