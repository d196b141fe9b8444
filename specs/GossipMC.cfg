SPECIFICATION Spec
CONSTANTS N = 3
 ROUNDS = 4
 RING = FALSE
 LOSS = FALSE
 BIG = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Good
