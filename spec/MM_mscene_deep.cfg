SPECIFICATION Spec
CONSTANTS
  KIND = "mscene"
  DEEP = TRUE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
