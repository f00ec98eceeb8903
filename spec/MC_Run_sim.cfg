SPECIFICATION Spec
CONSTANTS
 NF = 2
 NV = 2
 NC = 3
 W = 2
 Faults = 3
 Record = TRUE
 Fuse = 44
CHECK_DEADLOCK FALSE
INVARIANT Emit
