INIT Init
NEXT Next
CONSTANTS
  MaxN = 7
  MaxCore = 4
  MaxFaultN = 4
  MaxFaultChunks = 4
  Which = "calls"
CHECK_DEADLOCK FALSE
