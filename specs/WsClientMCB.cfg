SPECIFICATION Spec
CONSTANTS N = 3
 TX = 3
CHECK_DEADLOCK FALSE
INVARIANTS Order Current OneConn OffIsOff
