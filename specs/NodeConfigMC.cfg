SPECIFICATION Spec
CONSTANTS K = 4
 M = {1, 2, 6, 7}
CHECK_DEADLOCK FALSE
INVARIANTS SameIdentity OneIdentity Old
PROPERTIES Kept
