SPECIFICATION Spec
CONSTANTS
 NF = 3
 NV = 2
 NC = 4
 W = 3
 Faults = 3
 Record = FALSE
 Fuse = 0
INVARIANTS Exclusive Holder Clean Whole Honest Quiet
PROPERTIES Kept Settles
CHECK_DEADLOCK FALSE
