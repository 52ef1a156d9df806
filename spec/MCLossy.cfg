SPECIFICATION Spec
CONSTANTS
  Qs = {1, 2, 5, 10, 20, 30, 49, 50, 51, 60, 75, 80, 85, 90, 95, 99, 100}
  Steps = 7
INVARIANTS FlatI LimitI Emit
CHECK_DEADLOCK FALSE
