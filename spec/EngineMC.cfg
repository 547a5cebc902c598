SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS IsFlat NoDisabled SwitchedOff Again OwnFirst Unions Clean Reset
CHECK_DEADLOCK FALSE
