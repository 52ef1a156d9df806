SPECIFICATION Spec
CONSTANT Q = 4
INVARIANTS Neutral Between Full HslRoundTrip DarkenLighten HueShort
CHECK_DEADLOCK FALSE
