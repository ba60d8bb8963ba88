SPECIFICATION Spec
CONSTANTS Weak = "stop"
 Cmds = {"once", "until", "stop", "shutdown", "edit"}
INVARIANTS Rules Ends
CHECK_DEADLOCK FALSE
