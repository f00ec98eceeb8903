SPECIFICATION Spec
CONSTANTS
 Kinds = {"grid", "cells"}
 Size = "small"
 Depth = 4
 Part = "forcing"
 Harms = TRUE
 Units = FALSE
INVARIANT Right
INVARIANT AllOrNothing
INVARIANT FailsOnlyIfIncomplete
INVARIANT Same
INVARIANT Replayed
CHECK_DEADLOCK FALSE
