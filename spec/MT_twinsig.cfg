SPECIFICATION Spec
CONSTANTS
  OPS = {"conn", "emit", "terminate", "name"}
  MAXOPS = 6
  MAXNEST = 1
  EMIT = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS P28_Sound P28_Own Script
PROPERTIES P28_Alone
