SPECIFICATION Spec
CONSTANTS
 Opts <- FewOpts
 MaxBad = 1
 MaxOpts = 1
 Quick = TRUE
 BadSteps <- FewWrong
INVARIANT SameMeaning
INVARIANT Untouched
INVARIANT AllNamed
INVARIANT Refused
INVARIANT Accepted
CHECK_DEADLOCK FALSE
