CONSTANTS
  Depth = 15
  Weights <- W13
  Jobs = {"j1", "j2"}
  Evs = {"e1", "e2"}
  Vs = {"v1", "v2", "v3"}
  Gs = {"g1", "g2", "g3"}
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  Errs = {"x1", "x2"}
  Keys = {"k1", "k2", "k3", "k4"}
  Vals = {"u1", "u2"}
  Advs = {1, 2, 3, 4, 5}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
