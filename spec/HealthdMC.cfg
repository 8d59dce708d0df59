CONSTANTS
  Hosts = {"h1", "h2"}
  Keep = 2
  MaxI = 2
  MaxClk = 3
  MaxRec = 3
  MaxInst = 2
  Purge = TRUE
SPECIFICATION Spec
INVARIANTS InvExact InvClean InvOnce InvLen
PROPERTIES FailHarmless
CHECK_DEADLOCK FALSE
