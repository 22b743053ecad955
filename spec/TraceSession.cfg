SPECIFICATION Spec
INVARIANT Accept
CONSTANTS Private = TRUE
 Counted = TRUE
CHECK_DEADLOCK FALSE
