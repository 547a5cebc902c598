SPECIFICATION Spec
CONSTANTS N = 4 P = 2
INVARIANTS Covered CoveredStill Apart Counted Bounded Whole Complete Readable Checked Prefix Kept Longest Broken
CHECK_DEADLOCK FALSE
