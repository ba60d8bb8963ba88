SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
