CONSTANT Relevant <- Relevant_
CONSTANT DecodeClauses <- DecodeClauses_
SPECIFICATION Spec
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
