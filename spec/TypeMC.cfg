SPECIFICATION Spec
INVARIANTS RoundTrip Refused SameMeaning
CHECK_DEADLOCK FALSE
