SPECIFICATION Spec
CONSTANTS Pool = 5
 Datas = {2}
INVARIANTS Authentic
PROPERTIES Progress
CHECK_DEADLOCK FALSE
