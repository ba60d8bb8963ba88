SPECIFICATION Spec
CONSTANTS
  Reqs = 3
  Clients = 3
  T = 1
INVARIANTS Quiet Latest
PROPERTIES Success Report Once Again Waits
VIEW View
CHECK_DEADLOCK FALSE
