SPECIFICATION Spec
CONSTANTS
  MaxP = 9
  V = 6
INVARIANTS SomeNearest OwnNearest FlatIsOne CutoffHolds
PROPERTY Forward
CHECK_DEADLOCK FALSE
