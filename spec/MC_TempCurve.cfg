SPECIFICATION Spec
CONSTANTS NDays = 2
 Temps <- T1
 Rises = {6}
 Lengths = {12, 16}
 StepSet = {3, 6}
 Offs <- O1
 Fracs = {6700}
INVARIANTS Ordered Progress InDay AtKnot
CHECK_DEADLOCK FALSE
