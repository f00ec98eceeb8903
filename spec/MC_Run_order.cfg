SPECIFICATION Spec
CONSTANTS
 NF = 2
 NV = 2
 NC = 4
 W = 4
 Faults = 0
 Record = TRUE
 Fuse = 0
CHECK_DEADLOCK FALSE
INVARIANT Emit
