SPECIFICATION Spec
CONSTANTS
  Total = 10
  Cap = 4
  Parts = {1, 2, 3, 5, 7}
  MaxCalls = 30
INVARIANTS Sound Complete Conserved Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
