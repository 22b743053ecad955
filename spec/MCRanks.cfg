SPECIFICATION Spec
CONSTANTS MaxN = 12 MaxCore = 5 MaxSize = 6
INVARIANTS Shared Partitioned
CHECK_DEADLOCK FALSE
