SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Exact Sound Emit
CHECK_DEADLOCK FALSE
