CONSTANTS
  Clients = {1, 2}
  Cap = 2
  MaxRec = 6
SPECIFICATION LSpec
INVARIANTS GoneAfterStop
PROPERTIES StopReturns QuietAfterStop
CHECK_DEADLOCK FALSE
