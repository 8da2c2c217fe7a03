CONSTANTS
  Kinds = {"go", "asm"}
  Keys <- McKeys
  Blocks = {1, 2}
  MaxRounds = 4
  EncFn <- McEnc
  DecFn <- McDec
  ValidKey <- McValid
SPECIFICATION Spec
INVARIANT SchedulesRight
CHECK_DEADLOCK FALSE
