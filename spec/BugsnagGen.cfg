CONSTANTS
  Depth = 16
  Weights <- W15
  Jobs = {"j1", "j2"}
  Evs = {"e1", "e2"}
  Keys = {"k1", "k2"}
  Vals = {"u1", "u2"}
  Outs = {"ok", "reject", "status500", "err", "bodyerr", "slow", "slowerr"}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
