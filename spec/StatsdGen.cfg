CONSTANTS
  Depth = 20
  Weights <- W10
  Jobs = {"j1", "j2", "j3"}
  Evs = {"e1", "e2", "e3"}
  Vs = {"v1", "v2", "v3", "v4"}
  Gs = {"g1", "g2", "g3", "g4"}
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  Advs = {1, 37, 99, 100, 250}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
