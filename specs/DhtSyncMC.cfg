SPECIFICATION Spec
CONSTANTS N = 2
 ROUNDS = 6
 BIG = TRUE
 LOSS = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Good NotInvented
