SPECIFICATION Spec
VIEW view
INVARIANTS Conserved ToldRight
CHECK_DEADLOCK TRUE
