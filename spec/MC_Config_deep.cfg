SPECIFICATION Spec
CONSTANTS
 Opts <- FewOpts
 MaxBad = 2
 MaxOpts = 2
 Quick = TRUE
 BadSteps <- FewWrong
INVARIANT SameMeaning
INVARIANT Untouched
INVARIANT AllNamed
INVARIANT Refused
INVARIANT Accepted
CHECK_DEADLOCK FALSE
