SPECIFICATION Spec
CONSTANTS
  Total = 6
  Cap = 3
  Parts = {1, 2, 4}
  MaxCalls = 20
INVARIANTS Sound Complete Conserved Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
