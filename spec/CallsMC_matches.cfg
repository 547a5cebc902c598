SPECIFICATION Spec
CONSTANT Where = "matches"
CONSTANT P <- TP
CONSTANT R <- TR
CONSTANT X <- TX
CONSTANT Wanted <- TAsked2
INVARIANT AsAlone

CHECK_DEADLOCK FALSE
