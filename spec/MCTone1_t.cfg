SPECIFICATION Spec
CONSTANTS Q = 6
 Ops = {"gamma", "gamma_opt", "level", "brightness", "contrast", "brightness_contrast", "invert", "gray", "sepia", "difference"}
INVARIANTS InRange NeutralKeeps Independent Monotone Turns Sixth GreyIsGrey InvertTwice Emit
CHECK_DEADLOCK FALSE
