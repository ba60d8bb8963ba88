SPECIFICATION Spec
INVARIANT Ok
PROPERTY Requested
CHECK_DEADLOCK FALSE
VIEW Seen
