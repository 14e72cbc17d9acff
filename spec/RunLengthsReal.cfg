CONSTANTS
  Copy = 6
  Mid = 10
  Big = 138
  Sizes = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,137,138,139,140,141,142,149}
  RUNS = 3
  FULL = 0
  Values = {0,7,8}
  COUNT = 0
  Record = FALSE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Right Complete InRange Short Shapes
CHECK_DEADLOCK FALSE
