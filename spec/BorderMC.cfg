INIT Init
NEXT Stay
CONSTANT N = 5
INVARIANT BorderLaw
CHECK_DEADLOCK FALSE
