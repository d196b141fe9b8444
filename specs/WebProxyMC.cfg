SPECIFICATION Spec
CONSTANTS NR = 2
 PX = 2
 EV = 2
CHECK_DEADLOCK FALSE
INVARIANTS Own Complete Fair
