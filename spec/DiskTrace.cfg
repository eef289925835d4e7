SPECIFICATION Spec
CONSTANTS
  AllUpTo = 4
CHECK_DEADLOCK FALSE
