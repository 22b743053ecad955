SPECIFICATION Spec
INVARIANTS ArgKept AroundKept OutHolds
PROPERTY Returns
CHECK_DEADLOCK FALSE
