CONSTANTS
  Hosts = {"a", "b", "c"}
  Self = "self"
  Counts = 2
SPECIFICATION MCSpec
INVARIANTS InvHosts InvExit InvWell
PROPERTIES Settles
CHECK_DEADLOCK FALSE
