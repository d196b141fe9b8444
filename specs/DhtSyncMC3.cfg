SPECIFICATION Spec
CONSTANTS N = 3
 ROUNDS = 6
 BIG = FALSE
 LOSS = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Good NotInvented
