SPECIFICATION Spec
CONSTANTS Weak = "idle"
 Cmds = {"once", "until", "stop", "shutdown", "edit"}
INVARIANTS Rules Ends
CHECK_DEADLOCK FALSE
