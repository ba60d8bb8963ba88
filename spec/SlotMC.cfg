SPECIFICATION Spec
INVARIANTS Valid Static Sound Reflexive
PROPERTIES Dynamic Refused
CHECK_DEADLOCK FALSE
