SPECIFICATION Spec
CONSTANTS TX = 3
 PX = 3
 EV = 3
CHECK_DEADLOCK FALSE
INVARIANTS Once Whole InOrder NoneMissing NothingKept Accounted
