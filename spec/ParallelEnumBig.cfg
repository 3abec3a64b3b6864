SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxCost = 5
  Parts = 2
  Careless = FALSE
INVARIANTS Whole Apart
PROPERTY Ends
CHECK_DEADLOCK FALSE
