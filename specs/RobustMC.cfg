SPECIFICATION Spec
CONSTANTS
 F = {1, 2, 5}
 C = {1}
 MaxSent = 3
 Tolerant = TRUE
INVARIANTS AllAlive OnDisk OnlySent
PROPERTIES NeverLess Answered
CHECK_DEADLOCK FALSE
