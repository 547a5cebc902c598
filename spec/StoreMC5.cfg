SPECIFICATION Spec
CONSTANTS N = 5
          MaxLen = 3
INVARIANTS HoleLaws SpanLaws ChainLaws
CHECK_DEADLOCK FALSE
