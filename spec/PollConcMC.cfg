CONSTANTS
  N <- MCN
  Cap = 2
  MaxPolls = 2
SPECIFICATION MCSpec
INVARIANTS InvCut InvNoLoss
PROPERTIES Immutable AllCounted
CHECK_DEADLOCK FALSE
