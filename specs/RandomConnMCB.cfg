SPECIFICATION Spec
CONSTANTS N = 3
 Q = 3
 EV = 6
CHECK_DEADLOCK FALSE
INVARIANTS Lists Agrees
CONSTANT Patience = 2
