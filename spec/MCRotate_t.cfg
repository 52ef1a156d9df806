SPECIFICATION Spec
CONSTANTS MaxW = 4 Step = 200
INVARIANTS Pythagoras OddEven Period Opposite Mirrored Quarter Emit
CHECK_DEADLOCK FALSE
