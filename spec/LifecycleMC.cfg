SPECIFICATION Spec
CONSTANTS N = {1, 2}
          Depth = 2
INVARIANT CodeRuns
PROPERTY Replied
VIEW View
PROPERTY Sticky
CHECK_DEADLOCK FALSE
