SPECIFICATION Spec
CONSTANTS MaxW = 3 Step = 640
INVARIANTS Pythagoras OddEven Period Opposite Mirrored Quarter Emit
CHECK_DEADLOCK FALSE
