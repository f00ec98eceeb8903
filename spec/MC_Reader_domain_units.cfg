SPECIFICATION SimSpec
CONSTANTS
 Kinds = {"grid"}
 Size = "domain"
 Depth = 4
 Part = "domain"
 Harms = TRUE
 Units = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
