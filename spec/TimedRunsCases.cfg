SPECIFICATION CSpec
CONSTANTS
  Stops = TRUE
  Limits = {1}
  Needs = {1}
  MaxRuns = 0
CHECK_DEADLOCK FALSE
