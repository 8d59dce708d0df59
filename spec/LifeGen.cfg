CONSTANTS
  Depth = 8
  Weights <- WL
  Ns = {1, 5, 40, 200, 6000}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
