SPECIFICATION Spec
CONSTANTS
  MaxIter = 5
  Geos = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17}
INVARIANTS Lengths Compose FixedPoint FixedFlat Positive Mass LastRay OneBlock Partition NoPenalty Descent
CHECK_DEADLOCK FALSE
