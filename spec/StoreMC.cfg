SPECIFICATION Spec
CONSTANTS N = 4
          MaxLen = 3
INVARIANTS HoleLaws SpanLaws ChainLaws
CHECK_DEADLOCK FALSE
