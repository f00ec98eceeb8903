SPECIFICATION Spec
CONSTANTS TStep = 3
 VStep = 1
 CStep = 5
INVARIANTS Plausible NoCloud Clouds Overcast Deardorff More MoreVapor Energy
CHECK_DEADLOCK FALSE
