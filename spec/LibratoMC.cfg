CONSTANTS
  MaxRec = 5
  Cap = 2
SPECIFICATION MCSpec
INVARIANTS InvOnce InvNonEmpty InvTotals
PROPERTIES AllSubmitted
CHECK_DEADLOCK FALSE
