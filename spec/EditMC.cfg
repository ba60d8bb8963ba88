SPECIFICATION Spec
CONSTANT Table <- MCTable
INVARIANT Ok ComesBack
CHECK_DEADLOCK FALSE
