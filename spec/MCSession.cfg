SPECIFICATION Spec
CONSTANTS Private = TRUE
 Counted = TRUE
 Threads = 2
 N = 2
 Envs = {0, 5}
INVARIANT Independent
INVARIANT Restored
CHECK_DEADLOCK FALSE
