SPECIFICATION Spec
CONSTANTS N = 2
  L = {0, 1, 3, 4}
 Dom = {"salt_n_pepper", "rgb", "random", "gaussian"}
INVARIANTS Pepper RgbOnly AlphaKept InRange NoShare Shape
PROPERTY Step
CHECK_DEADLOCK FALSE
