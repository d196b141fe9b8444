SPECIFICATION Spec
CONSTANTS Pool = 4
 Datas = {2}
INVARIANTS Authentic
PROPERTIES Progress
CHECK_DEADLOCK FALSE
