SPECIFICATION Spec
CONSTANTS
 Opts <- AllOpts
 MaxBad = 4
 MaxOpts = 6
 Quick = FALSE
 BadSteps <- Wrong
INVARIANT Out
CHECK_DEADLOCK FALSE
