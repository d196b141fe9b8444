SPECIFICATION Spec
CONSTANT CFG = "A"
CHECK_DEADLOCK FALSE
INVARIANTS Fits RootHeld
PROPERTIES VersionsGrow AttachmentsStay NoCycling RefusalKeeps
VIEW View
