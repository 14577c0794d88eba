SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  MaxSessions = 2
  Topics = {1, 2}
  Kinds = {"send", "sub", "unsub", "recv", "init", "close"}

PROPERTIES Ends Restored
CHECK_DEADLOCK FALSE
