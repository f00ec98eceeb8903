SPECIFICATION SimSpec
CONSTANTS
 Kinds = {"cells"}
 Size = "forcing"
 Depth = 7
 Part = "forcing"
 Harms = TRUE
 Units = FALSE
INVARIANT Out
CHECK_DEADLOCK FALSE
