SPECIFICATION Spec
CONSTANTS
  KIND = "log"
  MAXOPS = 2
  VALS = {1}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
