SPECIFICATION Spec
CONSTANTS
  N = 1
  Calls <- Names
INVARIANTS Once TypeInv Emit
PROPERTIES KeepP
CHECK_DEADLOCK FALSE
