SPECIFICATION Spec
CONSTANTS
  N = 3
  Alphabet = {"in", "out", "bad", "open", "save", "silent", "invert", "gamma", "level", "bc", "gray", "num", "neg", "two", "three", "red", "dd", "empty"}
INVARIANTS CountInv Files2 Unknown0 Emit
PROPERTIES PrefixP
CHECK_DEADLOCK FALSE
