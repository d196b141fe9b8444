SPECIFICATION Spec
CONSTANT B = 4
CHECK_DEADLOCK FALSE
INVARIANTS NoLoop Closer
