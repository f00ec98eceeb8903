SPECIFICATION Spec
CONSTANTS DayLen = 4
          ND = 2
          MaxP = 2
INVARIANTS Conserved NonNegative RecordTotal ShiftedDay Tiling PiecesTile NoStuck
CHECK_DEADLOCK FALSE
