SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 6
 F = {1, 2}
 Faults = 2
 Without <- W1
INVARIANTS Real WithRealm Quiet CalmIsQuiet
PROPERTIES NeverLess SameCalm Settles
CHECK_DEADLOCK FALSE
