SPECIFICATION HSpec
CONSTANTS Fns = {"minus_log", "add_poisson", "remove_nan"}
 Args = {1, 2}
 Depth = 5
INVARIANT Deterministic
INVARIANT OnlyRandom
CHECK_DEADLOCK FALSE
