CONSTANT Relevant <- Relevant_
CONSTANT DecodeClauses <- DecodeClauses_
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
