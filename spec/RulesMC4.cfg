SPECIFICATION Spec
CONSTANTS MaxRules = 4
          Classes = {"A", "B", "C"}
          Priorities = {0}
INVARIANT OrderLaw
CHECK_DEADLOCK FALSE
