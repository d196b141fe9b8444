SPECIFICATION Spec
CONSTANTS EV = 8
 Q = 4
CHECK_DEADLOCK FALSE
INVARIANTS Alternate Agree
