SPECIFICATION Spec
CONSTANTS
  OPS = {"conn", "emit", "terminate", "name"}
  MAXOPS = 7
  MAXNEST = 2
  EMIT = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS P28_Sound P28_Own Script
PROPERTIES P28_Alone
