SPECIFICATION Spec
CONSTANTS MaxRules = 3
          Classes = {"A", "B", "C"}
          Priorities = {0, 1}
INVARIANT OrderLaw
CHECK_DEADLOCK FALSE
