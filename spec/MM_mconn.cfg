SPECIFICATION Spec
CONSTANTS
  KIND = "mconn"
  DEEP = FALSE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
