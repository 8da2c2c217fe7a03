CONSTANTS
  Objs = {"a", "b"}
  Entropy <- McEntropy
  Extra <- McExtra
  Lens <- McLens
  MaxOps = 3
  CtrMod = 16
SPECIFICATION Spec
INVARIANTS Agree NeverTwice
PROPERTY Refines
CHECK_DEADLOCK FALSE
