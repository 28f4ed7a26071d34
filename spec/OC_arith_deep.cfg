SPECIFICATION Spec
CONSTANTS
  KIND = "field"
  MAXOPS = 2
  VALS = {0, 7, 13}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
