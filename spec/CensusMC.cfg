CONSTANTS LIMIT = 40
  DEPTH = 4
SPECIFICATION Spec
INVARIANTS Conserved RootIsSpace Counted22
CHECK_DEADLOCK FALSE
