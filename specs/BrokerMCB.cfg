SPECIFICATION Spec
CONSTANTS NB = 3
 NLinks = 3
 NEmit = 2
 NSettle = 1
INVARIANTS Once All Fifo SettleOk
CHECK_DEADLOCK TRUE
