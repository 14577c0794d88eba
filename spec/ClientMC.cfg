SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxSessions = 2
  Topics = {1, 2}
  Kinds = {"send", "sub", "unsub", "recv", "init", "close"}
INVARIANTS One Agree Closed Exclusive AtMostOneTry
PROPERTIES AfterClose
CHECK_DEADLOCK FALSE
