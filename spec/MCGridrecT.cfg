CONSTANTS
 Vals = {0, 1, 2}
 NRows = 2
 NCols = 4
SPECIFICATION Spec
INVARIANT Dark
PROPERTY Linear Additive AxisOnly Opposite NoOrder Turned
CHECK_DEADLOCK FALSE
