SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Exact Sound Emit
CHECK_DEADLOCK FALSE
