SPECIFICATION Spec
CONSTANTS
  Qs <- AllQ
  Steps = 15
INVARIANTS FlatI LimitI Emit
CHECK_DEADLOCK FALSE
