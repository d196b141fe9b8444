SPECIFICATION Spec
CONSTANTS N = 3
 Q = 2
 EV = 5
CHECK_DEADLOCK FALSE
INVARIANTS Lists Agrees
CONSTANT Patience = 2
