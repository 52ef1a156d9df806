SPECIFICATION Spec
CONSTANTS
  N = 3
  Alphabet = {"oa", "ow", "oj", "om", "ob", "sb", "sa", "si", "sx", "sd", "su", "inv", "gam", "nz", "sil"}
INVARIANTS ImgInv OutInv DoneInv Emit
PROPERTIES StopP FileP
CHECK_DEADLOCK FALSE
