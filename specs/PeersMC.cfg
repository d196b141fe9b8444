SPECIFICATION Spec
CONSTANTS EV = 5
 Q = 3
CHECK_DEADLOCK FALSE
INVARIANTS Alternate Agree
