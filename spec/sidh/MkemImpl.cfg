CONSTANTS
  PubFn <- McPub
  SharedFn <- McShared
  ClampFn <- McClamp
  SLen <- McSLen
  ValLen <- McValLen
  SecretLen <- One
  LenOf <- McLen
  Cut <- McCut
  Zeros0 <- McZeros
  JoinFn <- McJoin
  Unknown <- McUnknown
  MEncFn <- McMEnc
  MDecFn <- McMDec
  MMsgLen <- One
  MZero <- McZero
  Msgs <- McMsgs
  MaxSeen = 2
  MaxTamper = 1
  Deltas <- McDelta
SPECIFICATION Spec
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT KeptRight
PROPERTY StepsRight
