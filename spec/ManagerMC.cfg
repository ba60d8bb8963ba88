SPECIFICATION Spec
INVARIANTS Inv Jail Emit
CHECK_DEADLOCK FALSE
