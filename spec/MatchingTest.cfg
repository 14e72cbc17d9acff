CONSTANTS
 N = 10
 Window <- Window_
 MaxLen <- MaxLen_
 TooFar <- TooFar_
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
