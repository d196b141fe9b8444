SPECIFICATION Spec
CONSTANT N = 24
CHECK_DEADLOCK FALSE
INVARIANTS Fits RootHeld OwnRealm
