CONSTANTS
  GHOST = FALSE
  Regs = {1, 2, 3}
  Srcs = {1, 2}
  MaxN = 0
  Jobs = {"j1", "j2", "j3"}
  Evs = {"e1", "e2"}
  Vs = {}
  Gs = {"g1", "g2", "g3"}
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  OpKinds = {}
  FOCUS = "@"
INIT TInit
NEXT TNext
