CONSTANTS
 W = 4
 HASHES = {0,1,3}
 N = 12
 RESETS = 0
 Bugs = {}
SPECIFICATION Spec
INVARIANTS Complete Fresh Sane
CHECK_DEADLOCK FALSE
