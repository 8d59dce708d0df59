CONSTANTS
  Errs = {"x", "y", "z"}
  Cap = 1
  MaxRec = 5
  MaxKv = 1
SPECIFICATION MCSpec
INVARIANTS InvPrefix InvOnce InvNoMuted
PROPERTIES AllPosted
CHECK_DEADLOCK FALSE
