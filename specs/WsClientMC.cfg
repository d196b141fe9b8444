SPECIFICATION Spec
CONSTANTS N = 2
 TX = 2
CHECK_DEADLOCK FALSE
INVARIANTS Order Current OneConn OffIsOff
PROPERTIES Heals
