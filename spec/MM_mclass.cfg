SPECIFICATION Spec
CONSTANTS
  KIND = "mclass"
  DEEP = FALSE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
