SPECIFICATION Spec
INVARIANT HaltStep
VIEW NodeView
CHECK_DEADLOCK FALSE
