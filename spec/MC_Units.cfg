SPECIFICATION Spec
CONSTANTS Steps = {1, 60, 90, 1440}
 Values = {1, 7, 13}
INVARIANTS Same Honest Back Digits
CHECK_DEADLOCK FALSE
