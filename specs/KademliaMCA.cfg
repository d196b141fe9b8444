SPECIFICATION Spec
CONSTANT CFG = "A"
CHECK_DEADLOCK FALSE
INVARIANTS ShapeOK Placed RootPlaced SilenceOK
PROPERTY StepOK
VIEW View
