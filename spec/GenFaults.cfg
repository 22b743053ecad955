INIT Init
NEXT Next
CONSTANTS
  MaxN = 4
  MaxCore = 3
  MaxFaultN = 4
  MaxFaultChunks = 4
  Which = "faults"
CHECK_DEADLOCK FALSE
