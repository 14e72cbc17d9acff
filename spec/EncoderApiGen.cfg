CONSTANTS
 Fmts = {"raw","zlib","gzip"}
 INCAP = 2
 LARGE = 1
 BLKV = 1
 MAXU = 7
 MAXN = 3
 CALLS = 7
 FAULTS = 4
 STREAMS = 3
 Kinds = {"I","E","0","short","dead"}
 Bugs = {}
 Record = TRUE
SPECIFICATION Spec
INVARIANTS ContractKept Bounded Held
CHECK_DEADLOCK FALSE
