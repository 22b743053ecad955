SPECIFICATION TSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
