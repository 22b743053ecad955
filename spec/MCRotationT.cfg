CONSTANTS
 Vals = {0, 1, 3}
 NRows = 2
 NCols = 4
SPECIFICATION Spec
INVARIANT WholeShift Through SmoothRange
PROPERTY Symmetric Together Scaling
CHECK_DEADLOCK FALSE
