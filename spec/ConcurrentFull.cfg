SPECIFICATION Spec
CONSTANTS Weak = ""
 Cmds = {"once", "always", "until", "stop", "reset", "shutdown", "edit"}
INVARIANTS Rules Ends
PROPERTY Answered
CHECK_DEADLOCK FALSE
