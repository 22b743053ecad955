SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Cpu = 2
  MaxCalls = 2
  MaxLimit = 1
  Kinds = {"ok", "raise"}
INVARIANTS PlanIsPartition ReturnedIsComplete FailureSurfaces NoFalseAlarm Threads LimitRestored
PROPERTIES EveryCallEnds RefinesJobs
CHECK_DEADLOCK FALSE
