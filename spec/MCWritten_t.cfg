SPECIFICATION Spec
VIEW View
CONSTANTS
  Qs = {0, 1, 2, 10, 30, 49, 50, 51, 74, 75, 76, 89, 90, 91, 99, 100, 101, 255}
  Starts = {0, 50, 100}
INVARIANTS FormI Emit
PROPERTIES OptionA
CHECK_DEADLOCK FALSE
