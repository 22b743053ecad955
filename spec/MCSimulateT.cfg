SPECIFICATION Spec
CONSTANTS
  N = 4
  Values = {1, 2}
  Axes <- AxesT
  Centres <- CentresT
  Turns = {30, 90}
INVARIANTS Sum Orthonormal Round Symmetric
PROPERTY Ends
CHECK_DEADLOCK FALSE
