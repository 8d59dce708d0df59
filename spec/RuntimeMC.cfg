CONSTANTS
  Sel = {"memory", "fds"}
  Interval = 2
  MaxTime = 9
SPECIFICATION MCSpec
INVARIANTS InvSchedule InvOnce InvComplete
PROPERTIES StopReturns
CHECK_DEADLOCK FALSE
