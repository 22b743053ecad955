CONSTANTS
 Vals = {0, 1}
 NRows = 2
 NCols = 3
SPECIFICATION Spec
INVARIANT Dark
PROPERTY Linear Additive AxisOnly Opposite NoOrder Turned
CHECK_DEADLOCK FALSE
