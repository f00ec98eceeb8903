SPECIFICATION Spec
CONSTANTS
 Confs <- C2
 Opts <- O1
 Names <- N1
 Slots = {1, 2}
 Copies = {"opts", "labels", "conf", "inputs"}
 Most = 6
 Record = FALSE
INVARIANTS Isolated Defaults Callers
VIEW View
CHECK_DEADLOCK FALSE
