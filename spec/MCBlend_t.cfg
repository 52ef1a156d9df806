SPECIFICATION Spec
CONSTANT Q = 8
INVARIANTS Neutral Between Full HslRoundTrip DarkenLighten HueShort
CHECK_DEADLOCK FALSE
