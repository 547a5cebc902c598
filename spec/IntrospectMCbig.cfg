SPECIFICATION Spec
CONSTANTS Big = TRUE
INVARIANTS Complete Silent Possible Literal Once Valued
CHECK_DEADLOCK FALSE
