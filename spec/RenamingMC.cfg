SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Steps = 8
INVARIANTS TableOK SameTime StepsOK MarksOK LexOK
