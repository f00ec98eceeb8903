SPECIFICATION SimSpec
CONSTANTS
 Kinds = {"grid"}
 Size = "state"
 Depth = 4
 Part = "state"
 Harms = TRUE
 Units = FALSE
INVARIANT Out
CHECK_DEADLOCK FALSE
