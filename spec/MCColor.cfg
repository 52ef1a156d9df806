SPECIFICATION Spec
CONSTANT Q = 6
INVARIANTS SrgbInverse YuvInverse XyzInverse LabInverse LchInverse HslInverse HsvInverse Grey Mono Permuted Emit
CHECK_DEADLOCK FALSE
