SPECIFICATION Spec
CONSTANTS
  KIND = "mclass"
  DEEP = TRUE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
