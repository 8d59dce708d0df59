CONSTANTS
  Recs = {1, 2}
  N = 2
  Drains = {1, 2}
  Cap = 2
  BufMax = 2
  STOPS = TRUE
INIT QInit
NEXT QNext
INVARIANTS InvOrder InvBounded InvDrained InvKept
CHECK_DEADLOCK FALSE
