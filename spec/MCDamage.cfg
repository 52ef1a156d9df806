SPECIFICATION Spec
CONSTANTS
  N = 2
  Data = 2
INVARIANTS CutI SoundI GuardI Emit
CHECK_DEADLOCK FALSE
