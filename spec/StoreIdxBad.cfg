SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Reset = FALSE
INVARIANTS Coherent MaxOK
CHECK_DEADLOCK FALSE
