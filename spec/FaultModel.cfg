SPECIFICATION Spec
INVARIANT EndsOK
CHECK_DEADLOCK FALSE
