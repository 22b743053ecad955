SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 5}
  D1 = 2
  D2 = 1
  D3 = 3
INVARIANT DefaultPadOk
PROPERTIES PadKeeps EdgeAddsNothing DownUndoesUp MassKept NoSeam TurnMirrors
CHECK_DEADLOCK FALSE
