SPECIFICATION Spec
CONSTANTS
  N = 3
  D = 1
INVARIANTS Never Gone Held
PROPERTIES Once Waits New Sends
VIEW View
CHECK_DEADLOCK FALSE
