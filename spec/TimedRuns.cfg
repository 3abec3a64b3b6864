SPECIFICATION Spec
CONSTANTS
  Stops = TRUE
  Limits = {0, 2, 3, 5}
  Needs = {0, 1, 2, 3, 4, 6}
  MaxRuns = 3
INVARIANTS NoStrayAlarm LimitsObeyed
CHECK_DEADLOCK FALSE
