CONSTANTS
  FOCUS = "@"
INIT TInit
NEXT TNext
