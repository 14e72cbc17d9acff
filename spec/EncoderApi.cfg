CONSTANTS
 Fmts = {"raw","zlib","gzip"}
 INCAP = 2
 LARGE = 1
 BLKV = 1
 MAXU = 4
 MAXN = 3
 CALLS = 5
 FAULTS = 2
 STREAMS = 2
 Kinds = {"I","E","0","short"}
 Bugs = {}
 Record = FALSE
SPECIFICATION Spec
INVARIANTS ContractKept Bounded Held
CHECK_DEADLOCK FALSE
