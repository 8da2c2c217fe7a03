CONSTANTS
  Threads = {1, 2, 3}
  Where = "local"
  KeyNames = {"k", "l"}
  MaxCalls = 1
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
