SPECIFICATION Spec
CONSTANTS
  NViews = 1
  MaxBlobs = 4
  MaxVer = 2
  UseConds = {0}
  Signers = {{}}
  TwoParents = TRUE
CONSTRAINT Bound
INVARIANTS ViewIsStored ListedOnce Everywhere NoStrays Findable PathEnds Fresh
PROPERTIES Grows Guarded
CHECK_DEADLOCK FALSE
