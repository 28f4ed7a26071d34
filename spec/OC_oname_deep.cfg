SPECIFICATION Spec
CONSTANTS
  KIND = "name"
  MAXOPS = 1
  VALS = {1}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
