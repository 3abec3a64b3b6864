SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxCost = 4
  Parts = 2
  Careless = TRUE
INVARIANTS Whole Apart
PROPERTY Ends
CHECK_DEADLOCK FALSE
