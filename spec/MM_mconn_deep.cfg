SPECIFICATION Spec
CONSTANTS
  KIND = "mconn"
  DEEP = TRUE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
