SPECIFICATION Spec
CONSTANTS NR = 3
 PX = 1
 EV = 2
CHECK_DEADLOCK FALSE
INVARIANTS Own Complete Fair
