SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Nearest Lists Dicts Typed Starts Cleared Renewed Owners
PROPERTY Stable
CHECK_DEADLOCK FALSE
