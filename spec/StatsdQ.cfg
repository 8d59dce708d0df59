CONSTANTS
  Recs = {1, 2}
  N = 1
  Drains = {1, 2}
  Cap = 2
  BufMax = 2
  STOPS = TRUE
SPECIFICATION QSpec
INVARIANTS InvOrder InvBounded InvDrained InvKept
PROPERTIES QuietAfterStop DrainsReturn StopReturns AllSent
CHECK_DEADLOCK FALSE
