SPECIFICATION Spec
INVARIANTS Kept Unique NoStuck Screens
PROPERTY Complete
CHECK_DEADLOCK FALSE
