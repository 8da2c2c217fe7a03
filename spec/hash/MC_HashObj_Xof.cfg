CONSTANTS
  Objs = {"a", "b"}
  MaxLen = 3
  MaxOut = 3
  Tokens = {0, 1}
  XOF = TRUE
  Nothing <- McNothing
  Absorb <- McAbsorb
  Out <- McOut
  Cat <- McCat
  LenOf <- McLen
SPECIFICATION Spec
INVARIANTS TypeOK OneStream WritesCount SumIsDigest
PROPERTIES NoLateWrite Isolation Observers ResetIsFresh
CHECK_DEADLOCK FALSE
