SPECIFICATION Spec
CONSTANTS T = 5
 M = 3
 K = 3
CHECK_DEADLOCK FALSE
INVARIANTS Exact NotEarly
PROPERTIES CatchUp All
