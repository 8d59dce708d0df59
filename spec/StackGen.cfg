CONSTANTS
  Depth = 20
  Weights <- W21
  Fns = {"plain", "method", "value", "closure", "generic", "hop", "hop2", "pan", "iface", "defer", "tiny", "tiny2"}
  Leaves = {"", "leaf", "leaf2", "tiny", "tiny2"}
  Skips = {0, 1, 2, 3, 10, 100}
  Maxes = {0, 1, 2, 7, 50, 200}
  Deeps = {1, 5, 45, 60}
  Ts = {1, 2, 3, 4, 5}
  Concs = {1, 2, 4}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
