CONSTANTS
  N = 5
  RCap = 2
  QCap = 2
  Blocking = FALSE
  LetGo = TRUE
  Queries = 2
  ACap = 1
SPECIFICATION CSpec
INVARIANTS Asked NotStuck
PROPERTIES Recalculated StopReturns DebouncerEnds PollsEnd QueriesEnd
CHECK_DEADLOCK FALSE
