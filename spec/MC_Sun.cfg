SPECIFICATION Spec
CONSTANTS LatStep = 7500
 DayStep = 7
INVARIANTS Hemispheres Equator Season Monotone NoNightSun Energy Spring
CHECK_DEADLOCK FALSE
