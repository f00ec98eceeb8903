SPECIFICATION Spec
CONSTANTS MaxDays = 5
          Steps = {240, 360, 1440}
          Starts = "deep"
INVARIANTS Increasing ValidDates CountRight FilesDisjoint FilesTile NamesDistinct EndRight WholeDays
CHECK_DEADLOCK FALSE
