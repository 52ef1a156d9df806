SPECIFICATION Spec
CONSTANTS
  N = 2
  Names = {"apng", "ajpg", "cnone", "dtmp", "hidden", "wwebp", "dir", "gone", "full"}
  Requests = {"", "webp", "bmp", "jpeg"}
  Images = {1}
  Foreign = {"jpeg", "png", "gif", "bmp", "ico", "webp", "junk", "empty", "cursor"}
INVARIANTS NeverP Emit
PROPERTIES SaveP LoadP
CHECK_DEADLOCK FALSE
