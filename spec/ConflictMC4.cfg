SPECIFICATION Spec
CONSTANTS N = 3
          MaxLen = 4
          Solvers = {""}
          Defaults = {"", "keep", "self", "long", "other"}
INVARIANTS DefaultLaw AlwaysLaw PairLaw KeepLaw
CHECK_DEADLOCK FALSE
