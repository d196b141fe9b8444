SPECIFICATION Spec
CONSTANTS N = 4
 TX = 4
CHECK_DEADLOCK FALSE
INVARIANTS Once Order NothingAfter TableRuns Own Ends
