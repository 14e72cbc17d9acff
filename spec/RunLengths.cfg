CONSTANTS
  Copy = 5
  Mid = 6
  Big = 9
  Sizes = {}
  RUNS = 0
  FULL = 11
  Values = {0,1,2}
  COUNT = 0
  Record = FALSE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Right Complete InRange Short Shapes
CHECK_DEADLOCK FALSE
