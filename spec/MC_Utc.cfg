SPECIFICATION Spec
CONSTANTS N = 6
 V = 1
INVARIANTS Path Conserved Circle Back Coarse Offsets
CHECK_DEADLOCK FALSE
