SPECIFICATION Spec
CONSTANTS
  KIND = "field"
  MAXOPS = 1
  VALS = {0, 3, 6, 7, 8, 13, 20}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
