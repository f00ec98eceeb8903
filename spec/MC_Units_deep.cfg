SPECIFICATION Spec
CONSTANTS Steps = {1,2,3,4,5,6,8,9,10,12,15,16,18,20,24,30,32,36,40,45,48,60,72,80,90,96,120,144,160,180,240,288,360,1440}
 Values = {1, 2, 7, 13, 97, 360, 999}
INVARIANTS Same Honest Back Digits
CHECK_DEADLOCK FALSE
