SPECIFICATION Spec
CONSTANTS
  Vals = {1, 3}
  NRows = 2
  NCols = 5
INVARIANT WaveletInverted
PROPERTIES NothingToDo MeanIsSmooth Monotone OthersKept Between Smoother Inverted
CHECK_DEADLOCK FALSE
