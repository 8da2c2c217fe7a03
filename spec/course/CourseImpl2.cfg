SPECIFICATION Spec
CONSTANTS
  N = 4
  B = 3
  M = 101
  Habit = "mask"
INVARIANTS Alike Right
PROPERTY Refines
CHECK_DEADLOCK FALSE
