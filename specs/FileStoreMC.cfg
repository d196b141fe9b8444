SPECIFICATION Spec
CONSTANTS NK = 2
 LEN = 3
 OPS = 4
 INPLACE = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Last OldOrNew
