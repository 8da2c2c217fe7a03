CONSTANTS
  Block = 4
  LenCells = 2
  Tokens = {0, 1}
  MaxLen = 9
  MaxWrite = 5
SPECIFICATION Spec
INVARIANTS LenOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
