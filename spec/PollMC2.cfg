CONSTANTS
  IMPL = TRUE
  MaxT = 8
  MaxN = 2
  MaxSnap = 1
  Jobs = {"j1"}
  Evs = {"e1"}
  Vs <- MCVs
  Gs = {"g1", "g2"}
  Sts = {"success", "panic", "none"}
  Advs = {1, 3}
  D = 2
  R = 2
  Slide = FALSE
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS InvWindow InvContent InvSerial InvBalanced InvCount
PROPERTIES PastImmutable SnapsImmutable
CHECK_DEADLOCK FALSE
