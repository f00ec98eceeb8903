SPECIFICATION Spec
CONSTANTS
 NF = 2
 NV = 1
 NC = 2
 W = 2
 Faults = 2
 Record = FALSE
 Fuse = 0
INVARIANTS Exclusive Holder Clean Whole Honest Quiet
PROPERTIES Kept Settles
CHECK_DEADLOCK FALSE
