CONSTANTS
  N = 3
  Vals = {0, 1}
  Most = 2
  Steps = 3
  Habit = "copy"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
