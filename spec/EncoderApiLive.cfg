CONSTANTS
 Fmts = {"raw","gzip"}
 INCAP = 2
 LARGE = 1
 BLKV = 1
 MAXU = 3
 MAXN = 2
 CALLS = 3
 FAULTS = 2
 STREAMS = 2
 Kinds = {"I","E","0","short","dead"}
 Bugs = {}
 Record = FALSE
SPECIFICATION Live
PROPERTY Returns
CHECK_DEADLOCK FALSE
