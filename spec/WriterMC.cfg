CONSTANTS
  MicroSign = "us"
  Procs = {1, 2, 3}
INIT MCInit
NEXT MCNext
INVARIANTS InvOnce InvOneLine InvOrderFree
CHECK_DEADLOCK FALSE
