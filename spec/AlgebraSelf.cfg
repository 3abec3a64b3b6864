SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ClosedMult ClosedAdd ClosedSums RepOK SumOK NotLess TakeOK
