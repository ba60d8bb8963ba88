SPECIFICATION Spec
CONSTANTS Weak = "raise"
 Cmds = {"once", "until", "stop", "shutdown", "edit"}
INVARIANTS Rules Ends
CHECK_DEADLOCK FALSE
