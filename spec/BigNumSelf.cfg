SPECIFICATION Spec
CONSTRAINT Depth
INVARIANTS ExactOK ModOK MagOK PowOK
CHECK_DEADLOCK FALSE
