CONSTANTS
  MaxTick = 4
  MaxSlow = 3
SPECIFICATION MCSpec
INVARIANTS InvData InvStatus InvFailuresKeepData InvPolls
CHECK_DEADLOCK FALSE
