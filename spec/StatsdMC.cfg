CONSTANTS
  Names <- MCNames
  Pref <- MCPref
  Durs <- MCDurs
  Gauges <- MCGauges
INIT MCInit
NEXT MCNext
INVARIANTS InvCount InvClean InvNoLeadingDot InvOneValue
CHECK_DEADLOCK FALSE
