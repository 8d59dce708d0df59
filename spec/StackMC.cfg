CONSTANTS
  MaxCalls = 2
  MaxKept = 2
  Skips = {0, 1, 4}
  Maxes = {0, 1, 9}
SPECIFICATION MCSpec
INVARIANTS InvBound InvChain InvComplete
PROPERTIES Stable
CHECK_DEADLOCK FALSE
