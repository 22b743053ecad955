CONSTANT Deviations = 1
SPECIFICATION Spec
INVARIANTS InBounds RefusedUntouched Guarded
PROPERTY Decided
CHECK_DEADLOCK FALSE
