SPECIFICATION Spec
CONSTANTS TStep = 15
 VStep = 2
 CStep = 20
INVARIANTS Plausible NoCloud Clouds Overcast Deardorff More MoreVapor Energy
CHECK_DEADLOCK FALSE
