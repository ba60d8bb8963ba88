SPECIFICATION Spec
INVARIANTS Switch There
CHECK_DEADLOCK FALSE
