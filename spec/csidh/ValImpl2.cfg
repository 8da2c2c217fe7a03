CONSTANTS As <- AllA
 Xs <- AllX
SPECIFICATION Spec
INVARIANTS Right Decidable
CHECK_DEADLOCK FALSE
