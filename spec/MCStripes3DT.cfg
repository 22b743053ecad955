SPECIFICATION Spec
CONSTANTS
  D1_ = 4
  D2_ = 1
  D3_ = 3
  Vals = {0, 2}
  Sens = {50, 100}
INVARIANTS IsMask NoStripe FullColumn WeightsOk
PROPERTIES Removes Adds
CHECK_DEADLOCK FALSE
