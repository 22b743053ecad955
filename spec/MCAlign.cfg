CONSTANTS
 Vals = {0, 1, 4}
 NRows = 2
 NCols = 3
SPECIFICATION Spec
PROPERTY Identity Flat InRange Back Small
CHECK_DEADLOCK FALSE
