SPECIFICATION Spec
CONSTANT DayLen = 1440
