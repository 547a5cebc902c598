SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Occur Roles Whole Sound Values Privacy InOrder Abbrev
CHECK_DEADLOCK FALSE
