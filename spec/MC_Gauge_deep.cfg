SPECIFICATION Spec
CONSTANTS DayLen = 4
          ND = 3
          MaxP = 2
INVARIANTS Conserved NonNegative RecordTotal ShiftedDay Tiling PiecesTile NoStuck
CHECK_DEADLOCK FALSE
