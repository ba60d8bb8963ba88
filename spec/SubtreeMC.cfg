SPECIFICATION Spec
INVARIANTS Alike AsRoot Crossing
PROPERTY Border
CHECK_DEADLOCK FALSE
