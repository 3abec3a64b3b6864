SPECIFICATION Spec
INVARIANTS Normal Lean
CHECK_DEADLOCK FALSE
