SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Reset = TRUE
INVARIANTS Coherent MaxOK
CHECK_DEADLOCK FALSE
