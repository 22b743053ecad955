SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  D1 = 1
  D2 = 2
  D3 = 3
PROPERTIES NoNewValues ConstantsFixed SizeOneIdentity DezingerLowers
CHECK_DEADLOCK FALSE
