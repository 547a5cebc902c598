SPECIFICATION Spec
CONSTANTS N = 3 P = 2
INVARIANTS Covered CoveredStill Apart Counted Bounded Whole Complete Readable Checked Prefix Kept Longest Broken
CHECK_DEADLOCK FALSE
