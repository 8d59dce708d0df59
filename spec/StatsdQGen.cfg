CONSTANTS
  Depth = 12
  Weights <- W11
  RecIds = {1, 2, 3}
  Ns = {1, 3, 40}
  MaxDrains = 8
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
