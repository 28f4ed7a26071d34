SPECIFICATION Spec
CONSTANTS
  KIND = "opt"
  MAXOPS = 3
  VALS = {2, 5}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
