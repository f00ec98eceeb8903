SPECIFICATION SimSpec
CONSTANTS
 Kinds = {"grid"}
 Size = "state"
 Depth = 4
 Part = "state"
 Harms = TRUE
 Units = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
