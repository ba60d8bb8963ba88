SPECIFICATION Spec
INVARIANT Fed
PROPERTIES Complete Frame Flagged Kept
CHECK_DEADLOCK FALSE
