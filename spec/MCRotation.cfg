CONSTANTS
 Vals = {0, 1}
 NRows = 2
 NCols = 5
SPECIFICATION Spec
INVARIANT WholeShift Through SmoothRange
PROPERTY Symmetric Together Scaling
CHECK_DEADLOCK FALSE
