SPECIFICATION Spec
CONSTANTS TMins <- T2
 Ranges = {0, 4, 12, 28}
 Seasons = {8000, 30000, 200000}
 Lats <- L2
 Days = {10, 172, 265}
 Elevs = {0, 30000}
 Scalars = {750000}
INVARIANTS Settles Unique Dewy Cloudy Wetter Bounded Clear
CHECK_DEADLOCK FALSE
