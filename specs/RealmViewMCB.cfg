SPECIFICATION Spec
CONSTANTS
  NViews = 1
  MaxBlobs = 4
  MaxVer = 3
  UseConds = {0}
  Signers = {{}}
  TwoParents = FALSE
CONSTRAINT Bound
INVARIANTS ViewIsStored ListedOnce Everywhere NoStrays Findable PathEnds Fresh
PROPERTIES Grows Guarded
CHECK_DEADLOCK FALSE
