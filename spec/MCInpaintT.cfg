SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 5}
  Shapes <- TShapes
  Halves = {1, 2}
INVARIANTS KnownKept InRange MedianIsAValue Filled Composed
PROPERTIES Ends Progress
CHECK_DEADLOCK FALSE
