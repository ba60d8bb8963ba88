SPECIFICATION Spec
CONSTANTS N = 4
 W = 2
 Table <- ExTable
INVARIANTS Whole Same Closed Nested All Asks
CHECK_DEADLOCK FALSE
