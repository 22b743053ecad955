SPECIFICATION Spec
CONSTANTS Aspects = {1, 2, 3}
 Depth = 4
INVARIANT Right
INVARIANT Exposed
INVARIANT Same
CHECK_DEADLOCK FALSE
