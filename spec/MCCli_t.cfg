SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet = {"in", "out", "open", "save", "silent", "invert", "gamma", "level", "gray", "num", "neg", "two", "dd"}
INVARIANTS CountInv Files2 Unknown0 Emit
PROPERTIES PrefixP
CHECK_DEADLOCK FALSE
