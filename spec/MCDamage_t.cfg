SPECIFICATION Spec
CONSTANTS
  N = 3
  Data = 2
INVARIANTS CutI SoundI GuardI Emit
CHECK_DEADLOCK FALSE
