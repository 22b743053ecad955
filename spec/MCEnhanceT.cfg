SPECIFICATION Spec
CONSTANTS
  H = 3
  W = 4
  Values = {0, 3}
  Sigmas = {2, 7}
  Orders = {0, 1, 2, 3}
  Sizes = {1, 3, 5}
INVARIANTS Undone Commutes Mass Vanishes FlatStays Unit Staircase
PROPERTY Ends
CHECK_DEADLOCK FALSE
