SPECIFICATION Spec
CONSTANTS
  Size = 5
  Levels = {0, 2}
  Heights = {0, 3, 15}
  Widths = {0, 1}
  Thetas = {0, 50, 179}
  Thresholds = {5, 300}
INVARIANTS Sampled Bounded CornersKept FlatKept RingGone
PROPERTY Ends
CHECK_DEADLOCK FALSE
