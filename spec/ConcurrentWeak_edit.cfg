SPECIFICATION Spec
CONSTANTS Weak = "edit"
 Cmds = {"once", "until", "stop", "shutdown", "edit"}
INVARIANTS Rules Ends
CHECK_DEADLOCK FALSE
