CONSTANTS
  FOCUS = "@"
  MicroSign <- MicroFromTrace
INIT TInit
NEXT TNext
