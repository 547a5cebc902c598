SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Complete Ordered Firsts KeyIsField
CHECK_DEADLOCK FALSE
