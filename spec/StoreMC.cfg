SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Inside Outside Tree
PROPERTIES Kept
CHECK_DEADLOCK FALSE
