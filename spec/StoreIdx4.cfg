SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Reset = TRUE
INVARIANTS Coherent MaxOK
CHECK_DEADLOCK FALSE
