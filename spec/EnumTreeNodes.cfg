SPECIFICATION Spec
VIEW NodeView
INVARIANTS Normal Lean
CHECK_DEADLOCK FALSE
