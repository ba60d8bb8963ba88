SPECIFICATION Spec
CONSTANTS
  Goals = 2
  Clients = 2
  T = 1
INVARIANTS One Quiet Latest
PROPERTIES Success Report Order
VIEW View
CHECK_DEADLOCK FALSE
