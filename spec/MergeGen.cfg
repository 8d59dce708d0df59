CONSTANTS
  GHOST = FALSE
  Regs = {1, 2, 3}
  Srcs = {1, 2}
  MaxN = 0
  Jobs = {"j1", "j2", "j3"}
  Evs = {"e1", "e2"}
  Vs <- GenVs
  Gs = {"g1", "g2", "g3"}
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  OpKinds = {}
  Depth = 20
  Weights <- W8
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
