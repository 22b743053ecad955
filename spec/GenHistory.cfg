INIT Init
NEXT Next
CONSTANTS Fns = {"minus_log"}
 Args = {1}
 Depth = 1
CHECK_DEADLOCK FALSE
