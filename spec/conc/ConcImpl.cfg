CONSTANTS
  Threads = {1, 2}
  Where = "local"
  KeyNames = {"k"}
  MaxCalls = 2
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
