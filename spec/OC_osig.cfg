SPECIFICATION Spec
CONSTANTS
  KIND = "sig"
  MAXOPS = 4
  VALS = {1}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
