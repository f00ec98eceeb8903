SPECIFICATION Spec
CONSTANTS MaxDays = 3
          Steps = {360, 1440}
          Starts = "sm"
INVARIANTS Increasing ValidDates CountRight FilesDisjoint FilesTile NamesDistinct EndRight WholeDays
CHECK_DEADLOCK FALSE
