SPECIFICATION Spec
CONSTANTS MaxW = 4 MaxN = 6 Vals = {0, 2}
INVARIANTS Flat Mirror Identity NearestInside Mono Emit
CHECK_DEADLOCK FALSE
