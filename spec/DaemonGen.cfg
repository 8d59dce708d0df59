CONSTANTS
  Depth = 1
  Ups = {0, 1, 3, 12}
  Downs = {0, 2}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
