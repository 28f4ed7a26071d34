SPECIFICATION Spec
CONSTANTS
  OPS = {"process", "queue", "free", "addn", "sing", "post"}
  MAXOPS = 5
  MAXNEST = 2
  EMIT = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS P28_Sound P28_Own Script
PROPERTIES P28_Alone
