CONSTANT Deviations = 2
SPECIFICATION Spec
INVARIANTS InBounds RefusedUntouched Guarded
PROPERTY Decided
CHECK_DEADLOCK FALSE
