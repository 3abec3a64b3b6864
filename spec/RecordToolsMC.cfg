CONSTANTS N = 5
  SampleSize = 2
SPECIFICATION Spec
INVARIANTS Partition Conserved SortOK SampleOK
CHECK_DEADLOCK FALSE
