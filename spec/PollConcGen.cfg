CONSTANTS
  Depth = 3
  Ns = {0, 1, 100, 4095, 4100, 6000}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
