CONSTANTS
  IMPL = FALSE
  MaxT = 0
  MaxN = 0
  MaxSnap = 6
  Jobs = {"j1", "j2", "j3"}
  Evs = {"e1", "e2", "e3"}
  Vs <- GenVs
  Gs = {"g1", "g2", "g3"}
  Sts = {"success", "validation_error", "panic", "error", "junk", "none"}
  Advs <- GenAdvs
  D = 8
  R = 2
  Slide = TRUE
  Depth = 20
  Weights <- W6
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
