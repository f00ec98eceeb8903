SPECIFICATION SimSpec
CONSTANTS
 Kinds = {"grid"}
 Size = "forcing"
 Depth = 7
 Part = "forcing"
 Harms = TRUE
 Units = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
