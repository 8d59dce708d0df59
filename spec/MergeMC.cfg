CONSTANTS
  GHOST = TRUE
  Regs = {1, 2}
  Srcs = {1}
  MaxN = 2
  Jobs = {"j"}
  Evs = {"e"}
  Vs <- MCVs
  Gs = {"g1", "g2"}
  Sts = {"success"}
  OpKinds = {"event", "timing", "gauge", "complete", "take", "clone", "merge"}
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS InvHom InvSane InvCommute InvAssoc InvUnit
CHECK_DEADLOCK FALSE
