SPECIFICATION Spec
CONSTANTS
  KIND = "field"
  MAXOPS = 4
  VALS = {5}
  USEOPS = {"write", "take", "force", "void", "copy", "set", "from"}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
