SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Patience = 10
