SPECIFICATION Spec
CONSTANT CFG = "B"
CHECK_DEADLOCK FALSE
INVARIANTS ShapeOK Placed RootPlaced SilenceOK
PROPERTY StepOK
VIEW View
