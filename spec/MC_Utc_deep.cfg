SPECIFICATION Spec
CONSTANTS N = 8
 V = 2
INVARIANTS Path Conserved Circle Back Coarse
CHECK_DEADLOCK FALSE
