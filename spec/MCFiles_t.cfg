SPECIFICATION Spec
CONSTANTS
  N = 3
  Names = {"apng", "cnone", "wwebp", "full"}
  Requests = {"", "webp", "gif"}
  Images = {1, 2}
  Foreign = {"jpeg", "png", "ico", "junk", "cursor"}
INVARIANTS NeverP Emit
PROPERTIES SaveP LoadP
CHECK_DEADLOCK FALSE
