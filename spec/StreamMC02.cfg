CONSTANTS
  GHOST = TRUE
  Streams = {1}
  Sinks = {"k1"}
  MaxJobs = 2
  MaxRuns = 2
  MaxNow = 0
  MaxLog = 2
  MaxRet = 0
  OpKinds = {"addsink", "skv", "jkv", "ckv", "newjob", "event"}
  Evs = {"e"}
  KeySet = {"x"}
  ValSet = {"a", "b"}
  MapIds = {"m1"}
  Raws = {"r1"}
  Ms = {"event"}
  Advs = {1}
  KvArgs = {"", "m1"}
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS InvAttached InvSameStory InvEmittedOnce InvMuted
PROPERTIES RecordPure RunOne
CHECK_DEADLOCK FALSE
