SPECIFICATION Spec
CONSTANTS T = 7
 M = 3
 K = 3
CHECK_DEADLOCK FALSE
INVARIANTS Exact NotEarly
PROPERTIES CatchUp All
