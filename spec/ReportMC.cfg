SPECIFICATION Spec
VIEW View
CONSTANTS
  Weak = "no"
  Mins = {20, 30, 45, 60}
  Ends = {"ok", "err", "raise"}
INVARIANTS Sound Announced Nested Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
