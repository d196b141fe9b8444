SPECIFICATION Spec
CONSTANTS N = 2
 ROUNDS = 4
 RING = FALSE
 LOSS = TRUE
 BIG = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Good
