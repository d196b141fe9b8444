SPECIFICATION Spec
CONSTANTS NS = 2
 MaxN = 2
INVARIANTS OnlyReal Monotone Foreign MatchLink
PROPERTIES Never
CHECK_DEADLOCK FALSE
