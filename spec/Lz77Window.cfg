CONSTANTS
 W = 8
 MM = 5
 BCAP = 6
 LAZYS = {0,4,6}
 MODES = {"lazy","greedy","rle"}
 LENS = {3,5}
 N = 30
 WRITES = {1,2,9,22}
 FLUSHES = 1
 Bugs = {}
 Record = FALSE
SPECIFICATION Spec
INVARIANTS Right Fits NotLost History Hashed
CHECK_DEADLOCK FALSE
