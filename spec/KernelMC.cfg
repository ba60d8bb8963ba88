SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY StepProp
CHECK_DEADLOCK FALSE
