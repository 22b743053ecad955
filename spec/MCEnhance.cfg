SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  Values = {0, 1, 7}
  Sigmas = {2, 7}
  Orders = {0, 1, 2}
  Sizes = {1, 3}
INVARIANTS Undone Commutes Mass Vanishes FlatStays Unit Staircase
PROPERTY Ends
CHECK_DEADLOCK FALSE
