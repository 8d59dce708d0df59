CONSTANTS
  GHOST = TRUE
  Streams = {1}
  Sinks = {"k1", "k2"}
  MaxJobs = 3
  MaxRuns = 2
  MaxNow = 1
  MaxLog = 2
  MaxRet = 0
  OpKinds = {"addsink", "adv", "event", "complete", "runjob", "runstream", "runend"}
  Evs = {"e"}
  KeySet = {"x"}
  ValSet = {"a"}
  MapIds = {"m1"}
  Raws = {"r1"}
  Ms = {"event"}
  Advs = {1}
  KvArgs = {""}
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS InvAttached InvSameStory InvEmittedOnce InvMuted
PROPERTIES RecordPure RunOne
CHECK_DEADLOCK FALSE
