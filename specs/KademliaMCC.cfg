SPECIFICATION Spec
CONSTANT CFG = "C"
CHECK_DEADLOCK FALSE
INVARIANTS ShapeOK Placed RootPlaced SilenceOK
PROPERTY StepOK
VIEW View
