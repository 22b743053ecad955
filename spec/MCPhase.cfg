CONSTANTS
 Vals = {0, 1, 3}
 NRows = 2
 NCols = 3
SPECIFICATION Spec
PROPERTY Empty MeanKept Smoothed Linear2 Sharp NoPhase Parseval
CHECK_DEADLOCK FALSE
