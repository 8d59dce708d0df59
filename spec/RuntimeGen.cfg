CONSTANTS
  Depth = 14
  Weights <- W17
  Loads = {"gc", "autogc", "garbage", "mem", "objs", "goroutines", "fds", "close"}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
