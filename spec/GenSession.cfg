INIT Init
NEXT Next
CONSTANTS Private = TRUE
 Counted = TRUE
 N = 2
CHECK_DEADLOCK FALSE
