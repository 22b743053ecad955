CONSTANTS
 Vals = {0, 1, 4}
 NRows = 3
 NCols = 3
SPECIFICATION Spec
PROPERTY Identity Flat InRange Back Small
CHECK_DEADLOCK FALSE
