CONSTANTS
  Depth = 20
  Weights <- W16
  Jobs = {"j1", "j2"}
  Evs = {"e1", "e2", "e3"}
  Vs <- GenVs
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  Outs = {"ok", "status500", "err", "bodyerr"}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
