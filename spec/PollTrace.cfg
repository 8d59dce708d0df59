CONSTANTS
  IMPL = FALSE
  MaxT = 0
  MaxN = 0
  MaxSnap = 0
  Jobs = {}
  Evs = {}
  Vs = {}
  Gs = {}
  Sts = {}
  Advs = {}
  D = 1
  R = 1
  Slide = TRUE
  FOCUS = "@FOCUS@"
INIT TInit
NEXT TNext
