CONSTANTS
  Depth = 30
  Weights <- W18
  Hosts = {0, 1, 2}
  Jobs = {"j1", "j2", "j3", "j4"}
  Evs = {"e1", "e2"}
  Vs = {0, 1, 2, 7, 50, 200}
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  Modes <- Modes18
  Delays = {"fast", "mid", "late", "later", "slow"}
  Advs = {"s1", "s3", "s7", "s10", "s13", "i1", "i5"}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
