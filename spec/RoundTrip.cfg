SPECIFICATION Spec
CONSTANT Table <- TrTable
INVARIANT RVerdict
CHECK_DEADLOCK FALSE
