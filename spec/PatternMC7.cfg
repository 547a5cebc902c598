SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Occur Roles Whole Sound Values Privacy InOrder Abbrev
CHECK_DEADLOCK FALSE
