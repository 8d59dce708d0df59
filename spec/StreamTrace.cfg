CONSTANTS
  GHOST = FALSE
  Streams = {1, 2}
  Sinks = {"k1", "k2", "k3"}
  MaxJobs = 6
  MaxRuns = 3
  MaxNow = 0
  MaxLog = 0
  MaxRet = 0
  OpKinds = {}
  Evs = {"n1", "n2", "n3"}
  KeySet = {"x", "y", "z"}
  ValSet = {"a", "b"}
  MapIds = {"m1", "m2"}
  Raws = {"r1", "r2"}
  Ms = {}
  Advs = {0, 1, 5, 100}
  KvArgs = {"", "m1", "m2", "nil", "empty"}
  FOCUS = "@"
INIT TInit
NEXT TNext
