CONSTANTS MaxExp = 2
 Curves <- SomeC
 Xs <- SomeX
SPECIFICATION Spec
INVARIANTS OnTrack Right CanEnd
CHECK_DEADLOCK FALSE
