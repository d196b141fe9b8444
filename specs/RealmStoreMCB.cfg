SPECIFICATION Spec
CONSTANT CFG = "B"
CHECK_DEADLOCK FALSE
INVARIANTS Fits RootHeld
PROPERTIES VersionsGrow AttachmentsStay NoCycling RefusalKeeps
VIEW View
