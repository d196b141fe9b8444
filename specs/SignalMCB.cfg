SPECIFICATION Spec
CONSTANTS N = 2
 C = 4
 TTL = 2
 EV = 9
CHECK_DEADLOCK FALSE
INVARIANTS Authentic OneEach Alive RightPeers
