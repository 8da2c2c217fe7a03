CONSTANTS As <- AllA
 Xs <- SomeX
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
