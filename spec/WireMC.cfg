SPECIFICATION Spec
INVARIANTS Sound Passes Transitive Reflexive
CHECK_DEADLOCK FALSE
