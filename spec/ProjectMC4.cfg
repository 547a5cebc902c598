SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Complete Ordered Firsts KeyIsField
CHECK_DEADLOCK FALSE
