SPECIFICATION Spec
CONSTANTS
  KIND = "mscene"
  DEEP = FALSE
INVARIANTS Sense Script
CHECK_DEADLOCK FALSE
