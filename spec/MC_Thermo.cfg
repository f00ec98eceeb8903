SPECIFICATION Spec
CONSTANTS TLo <- Lo
 THi = 45
 TStep = 3
 ElevStep = 1500
 ElevMax = 9000
 Parts = 3
INVARIANTS Positive Bounded Saturated Humid Warmer Higher Table
CHECK_DEADLOCK FALSE
