SPECIFICATION Spec
CONSTANT Where = "context"
CONSTANT P <- TP
CONSTANT R <- TR
CONSTANT X <- TX
CONSTANT Wanted <- TAsked2
INVARIANT AsAlone

CHECK_DEADLOCK FALSE
