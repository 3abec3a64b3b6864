SPECIFICATION Spec
CONSTANT Clears = FALSE
INVARIANT NoTornRecord
INVARIANT NoTornExpansion
CHECK_DEADLOCK FALSE
