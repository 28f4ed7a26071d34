SPECIFICATION Spec
CONSTANTS
  KIND = "sig"
  MAXOPS = 5
  VALS = {1}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
