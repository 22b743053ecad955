SPECIFICATION Spec
CONSTANTS
  N = 3
  Values = {1, 2}
  Axes <- AxesQ
  Centres <- CentresQ
  Turns = {0, 30}
INVARIANTS Sum Orthonormal Round Symmetric
PROPERTY Ends
CHECK_DEADLOCK FALSE
