SPECIFICATION Spec
CONSTANT Clears = TRUE
INVARIANT NoTornRecord
INVARIANT NoTornExpansion
CHECK_DEADLOCK FALSE
