SPECIFICATION Spec
VIEW view
INVARIANTS Conserved ToldRight
PROPERTY Terminates
CHECK_DEADLOCK TRUE
