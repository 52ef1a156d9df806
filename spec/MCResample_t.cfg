SPECIFICATION Spec
CONSTANTS MaxW = 6 MaxN = 9 Vals = {0, 2}
INVARIANTS Flat Mirror Identity NearestInside Mono Emit
CHECK_DEADLOCK FALSE
