CONSTANTS
  Depth = 24
  Weights <- W25
  Kinds = {"app", "text", "json", "statsd", "dead", "poll", "librato", "bugsnag"}
  Jobs = {"stream", "j1", "j.2", "success"}
  Evs = {"e1", "e.2", "panic"}
  Vs = {0, 1, 2, 9, 10, 11, 250}
  Gs <- GenGs
  Sts = {"success", "validation_error", "panic", "error", "junk"}
  Hows = {"raw", "muted", "again", "again"}
  Errs = {"x1", "x2", "x3"}
  Keys = {"a", "b", "request", "stack2"}
  Vals = {"1", "2", "url"}
  MapArgs = {"", "m1", "m2"}
  Advs = {0, 1, 20, 300}
  Modes = {"ok", "fail", "partial", "reject", "stall"}
INIT GInit
NEXT RandNext
CHECK_DEADLOCK FALSE
