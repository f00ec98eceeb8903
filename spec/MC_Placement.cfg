SPECIFICATION Spec
CONSTANTS Shapes <- S1
 ChunkSizes = {0, 1, 2}
 Masks <- AllMasks
INVARIANTS OnePlace Covered Disjoint Inactive
PROPERTY Done
CHECK_DEADLOCK FALSE
