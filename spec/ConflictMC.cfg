SPECIFICATION Spec
CONSTANTS N = 4
          MaxLen = 3
          Solvers = {""}
          Defaults = {"", "keep", "self"}
INVARIANTS DefaultLaw AlwaysLaw PairLaw KeepLaw
CHECK_DEADLOCK FALSE
