SPECIFICATION Spec
CONSTANTS NK = 2
 LEN = 3
 OPS = 7
 INPLACE = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Last OldOrNew
