CONSTANTS
  PubFn <- McPub
  SharedFn <- McShared
  ClampFn <- McClamp
  SLen <- McSLen
  ValLen <- McValLen
  SecretLen <- McSecLen
  LenOf <- McLen
  Cut <- McCut
  Zeros0 <- McZeros
  JoinFn <- McJoin
  EncapsFn <- McEncaps
  DecapsFn <- McDecaps
  Unknown <- McUnknown
  MLen <- One
  CtLen <- One
  SsLen <- One
  Msgs <- McMsgs
  PrvVals <- McPrv
  MaxSeen = 2
  Deltas <- McDeltas
SPECIFICATION Spec
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANT MemRight
PROPERTY StepsRight
VIEW View
INVARIANT Agree
