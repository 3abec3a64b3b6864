SPECIFICATION Spec
INVARIANTS Conserved ToldRight PrintTrace
CHECK_DEADLOCK FALSE
