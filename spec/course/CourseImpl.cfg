SPECIFICATION Spec
CONSTANTS
  N = 3
  B = 2
  M = 11
  Habit = "mask"
INVARIANTS Alike Right
PROPERTY Refines
CHECK_DEADLOCK FALSE
