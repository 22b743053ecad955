CONSTANT Deviations = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
