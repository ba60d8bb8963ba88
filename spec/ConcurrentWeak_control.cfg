SPECIFICATION Spec
CONSTANTS Weak = "control"
 Cmds = {"once", "until", "stop", "shutdown", "edit"}
INVARIANTS Rules Ends
CHECK_DEADLOCK FALSE
