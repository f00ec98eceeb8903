SPECIFICATION Spec
CONSTANTS NDays = 2
 Temps <- T1
 Rises = {5, 7}
 Lengths = {12, 16}
 StepSet = {1, 3, 6}
 Offs <- O1
 Fracs = {6700}
INVARIANTS Ordered Progress InDay AtKnot
CHECK_DEADLOCK FALSE
