SPECIFICATION Spec
CONSTANTS N = 2
 C = 3
 TTL = 2
 EV = 7
CHECK_DEADLOCK FALSE
INVARIANTS Authentic OneEach Alive RightPeers
