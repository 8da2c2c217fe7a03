CONSTANTS
  Nothing <- TrNothing
  Absorb <- TrAbsorb
  Out <- TrOut
  Cat <- TrCat
  LenOf <- Len
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
