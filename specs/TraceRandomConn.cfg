SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANT Patience = 10
