SPECIFICATION Spec
CONSTANT Where = "own"
CONSTANT P <- TP
CONSTANT R <- TR
CONSTANT X <- TX
CONSTANT Wanted <- TAsked
INVARIANT AsAlone
PROPERTY SetupStays
CHECK_DEADLOCK FALSE
