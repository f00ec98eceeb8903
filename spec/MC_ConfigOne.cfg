SPECIFICATION Spec
INVARIANT SameMeaning
INVARIANT Untouched
INVARIANT AllNamed
INVARIANT Refused
INVARIANT Accepted
INVARIANT Few
INVARIANT Out
CHECK_DEADLOCK FALSE
