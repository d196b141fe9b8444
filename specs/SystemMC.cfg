SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 5
 F = {1, 2}
 Faults = 1
 Without <- W0
INVARIANTS Real WithRealm Quiet CalmIsQuiet
PROPERTIES NeverLess SameCalm Settles
CHECK_DEADLOCK FALSE
