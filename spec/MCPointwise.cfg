SPECIFICATION Spec
CONSTANTS
  D2 = 2
  D3 = 2
  MaxOps = 3
INVARIANTS NoNan NoNeg Masked OnlyReplaced KeptInside Idempotent Symmetric
CHECK_DEADLOCK FALSE
