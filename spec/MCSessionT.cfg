SPECIFICATION Spec
CONSTANTS Private = TRUE
 Counted = TRUE
 Threads = 2
 N = 3
 Envs = {0, 5}
INVARIANT Independent
INVARIANT Restored
CHECK_DEADLOCK FALSE
