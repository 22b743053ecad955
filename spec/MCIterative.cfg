SPECIFICATION Spec
CONSTANTS
  MaxIter = 2
  Geos = {0, 1, 2, 3, 4, 5}
INVARIANTS Lengths Compose FixedPoint FixedFlat Positive Mass LastRay OneBlock Partition NoPenalty Descent
CHECK_DEADLOCK FALSE
