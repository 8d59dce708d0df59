CONSTANTS
  MicroSign = "us"
  MaxRec = 3
  MaxSinks = 3
  MaxErr = 2
  Jobs = {"j", "general"}
  Evs = {"e"}
SPECIFICATION MCSpec
INVARIANTS InvSuffix InvViews InvAdds
CHECK_DEADLOCK FALSE
