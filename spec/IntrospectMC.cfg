SPECIFICATION Spec
CONSTANTS Big = FALSE
INVARIANTS Complete Silent Possible Literal Once Valued
CHECK_DEADLOCK FALSE
