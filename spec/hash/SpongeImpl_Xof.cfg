CONSTANTS
  Rate = 3
  Tokens = {0, 1}
  MaxLen = 5
  MaxOut = 11
  MaxWrite = 5
  XOF = TRUE
SPECIFICATION Spec
INVARIANTS IdxOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
