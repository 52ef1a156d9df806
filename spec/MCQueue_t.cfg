SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet = {"oa", "ow", "ob", "sb", "sa", "si", "sx", "su", "inv", "nz", "sil"}
INVARIANTS ImgInv OutInv DoneInv Emit
PROPERTIES StopP FileP
CHECK_DEADLOCK FALSE
