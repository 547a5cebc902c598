SPECIFICATION GSpec
CONSTANTS MaxLen = 3
          Reset = TRUE
          Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
