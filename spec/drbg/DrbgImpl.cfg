CONSTANTS
  Objs = {"a"}
  Entropy <- McEntropy
  Extra <- McExtra
  Lens <- McLens
  MaxOps = 4
  CtrMod = 16
SPECIFICATION Spec
INVARIANTS Agree NeverTwice
PROPERTY Refines
CHECK_DEADLOCK FALSE
