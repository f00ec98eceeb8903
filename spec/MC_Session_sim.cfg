SPECIFICATION Spec
CONSTANTS
 Confs <- C1
 Opts <- O1
 Names <- N1
 Slots = {1, 2, 3}
 Copies = {"opts", "labels", "conf", "inputs"}
 Most = 9
 Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
