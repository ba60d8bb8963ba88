SPECIFICATION Spec
CONSTANT Table <- TrTable
INVARIANT Verdict
CHECK_DEADLOCK FALSE
