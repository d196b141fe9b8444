SPECIFICATION Spec
CONSTANTS
  NViews = 2
  MaxBlobs = 3
  MaxVer = 2
  UseConds = {1}
  Signers = {{}, {1}}
  TwoParents = FALSE
CONSTRAINT Bound
INVARIANTS ViewIsStored ListedOnce Everywhere NoStrays Findable PathEnds Fresh
PROPERTIES Grows Guarded
CHECK_DEADLOCK FALSE
