CONSTANTS
  Depth = 16
  Weights <- W23
  Modes = {"ok", "refused", "readerr", "garbage", "code", "codedata"}
  Delays = {0, 0, 3, 20, 40, 70, 130, 250, 480}
  Sizes = {0, 1, 4, 5, 6, 24, 61}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
