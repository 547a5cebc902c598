SPECIFICATION Spec
CONSTANTS N = 3
          MaxLen = 3
          Solvers = {"", "default", "self", "other", "keep", "long"}
          Defaults = {"", "self", "keep"}
INVARIANTS DefaultLaw AlwaysLaw PairLaw KeepLaw
CHECK_DEADLOCK FALSE
