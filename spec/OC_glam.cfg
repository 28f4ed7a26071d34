SPECIFICATION Spec
CONSTANTS
  KIND = "glam"
  MAXOPS = 1
  VALS = {1}
  USEOPS = {}
INVARIANTS StepsOk Script
CHECK_DEADLOCK FALSE
