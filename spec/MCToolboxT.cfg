CONSTANT Slices = 3 Workers = 2 Faults = 2 Tidy = TRUE Told = TRUE
SPECIFICATION Spec
INVARIANT Sound Clean Surfaces Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
