SPECIFICATION Spec
CONSTANTS
  Soon = 21000
  Boot = 31000
  Expire = 90000
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
