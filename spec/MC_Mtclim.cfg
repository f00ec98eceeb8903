SPECIFICATION Spec
CONSTANTS TMins <- T1
 Ranges = {1, 10, 22}
 Seasons = {8000, 60000}
 Lats <- L1
 Days = {10, 172}
 Elevs = {0, 30000}
 Scalars = {750000}
INVARIANTS Settles Unique Dewy Cloudy Wetter Bounded Clear
CHECK_DEADLOCK FALSE
