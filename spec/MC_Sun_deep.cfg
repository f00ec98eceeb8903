SPECIFICATION Spec
CONSTANTS LatStep = 1000
 DayStep = 1
INVARIANTS Hemispheres Equator Season Monotone NoNightSun Energy Spring
CHECK_DEADLOCK FALSE
