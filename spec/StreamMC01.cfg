CONSTANTS
  GHOST = TRUE
  Streams = {1, 2}
  Sinks = {"k1", "k2"}
  MaxJobs = 3
  MaxRuns = 2
  MaxNow = 0
  MaxLog = 4
  MaxRet = 0
  OpKinds = {"addsink", "newjob", "event", "timing"}
  Evs = {"e"}
  KeySet = {"x"}
  ValSet = {"a"}
  MapIds = {"m1"}
  Raws = {"r1"}
  Ms = {"event", "timing"}
  Advs = {1}
  KvArgs = {""}
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS InvAttached InvSameStory InvEmittedOnce InvMuted
PROPERTIES RecordPure RunOne
CHECK_DEADLOCK FALSE
