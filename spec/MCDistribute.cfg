SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxCore = 2
  MaxTasks = 4
  Kinds = {"ok", "raise", "defer", "die"}
INVARIANTS PlanIsPartition ReturnedIsComplete NeverTwice FailureSurfaces NoFalseAlarm
PROPERTIES Terminates RefinesJobs
CHECK_DEADLOCK FALSE
