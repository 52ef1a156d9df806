SPECIFICATION Spec
VIEW View
CONSTANTS
  Qs = {1, 85, 90}
  Starts = {0, 50, 100}
INVARIANTS FormI Emit
PROPERTIES OptionA
CHECK_DEADLOCK FALSE
