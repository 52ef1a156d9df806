----------------------------------- MODULE Tone -----------------------------------
(* Adjustments of single pixels.  Channels are scaled by P, parameters by 64; the       *)
(* parameter list q is <<k>>, <<k1, k2>> or <<k1, k2, k3>> (grey: its intensity).       *)
EXTENDS Color

\* v^(1/g), g = k/64, clamped
PowInv(v, k) == IF k < 0 THEN P ELSE IF k = 0 THEN (IF v >= P THEN P ELSE 0) ELSE PowP(v, 64, k)
\* v^g
PowG(v, k) == IF k >= 0 THEN PowP(v, k, 64)
              ELSE LET p == PowP(v, -k, 64) IN IF p * 2 <= P THEN 2 * P ELSE DivP(P \div 2, p) * 2
Split(v, k) ==
    IF v > P \div 2 THEN ClampP(PowInv(ClampP(2 * v - P), k) \div 2 + P \div 2)
    ELSE ClampP((PowG(ClampP(2 * v), k) + 1) \div 2)
Scale64(v, k) == (v \div 64) * k + DivR((v % 64) * k, 64)
Level(v, b, w, k) ==
    LET d == w - b
        x == v - 16384 * b
        s == IF d = 0 THEN (IF x > 0 THEN P ELSE 0) ELSE DivR(x * 64, d) IN
    PowInv(ClampP(s), k)
Channel(k, q, v) ==
    CASE k = "gamma"      -> PowInv(ClampP(v), q[1])
      [] k = "gamma_opt"  -> Split(v, q[1])
      [] k = "level"      -> Level(v, q[1], q[2], q[3])
      [] k = "brightness" -> ClampP(v + 16384 * q[1])
      [] k = "contrast"   -> ClampP(Scale64(v - P \div 2, q[1]) + P \div 2)
      [] k = "brightness_contrast" -> ClampP(Scale64(v + 16384 * q[1] - P \div 2, q[2]) + P \div 2)
      [] k = "invert"     -> P - v
ChannelOps == {"gamma", "gamma_opt", "level", "brightness", "contrast", "brightness_contrast", "invert"}
Sepia(c) == <<ClampP(DotP(<<412090, 806355, 198181>>, c)), ClampP(DotP(<<365953, 719323, 176161>>, c)),
              ClampP(DotP(<<285213, 559940, 137363>>, c))>>
Adjusted(k, q, c, o) ==
    CASE k \in ChannelOps -> <<Channel(k, q, c[1]), Channel(k, q, c[2]), Channel(k, q, c[3])>>
      [] k = "gray" -> LET g == Gray(q[1], c) IN <<g, g, g>>
      [] k = "sepia" -> Sepia(c)
      [] k = "difference" -> <<ClampP(AbsI(c[1] - o[1])), ClampP(AbsI(c[2] - o[2])), ClampP(AbsI(c[3] - o[3]))>>
Alpha(k, a) == IF k = "difference" THEN P ELSE a
ToneOps == ChannelOps \cup {"gray", "sepia", "difference"}

\* ---- HSL components ---------------------------------------------------------------
HslOps == {"saturation", "stretch_saturation", "gamma_saturation", "lightness", "hue_rotate", "vibrance", "modulate"}
SinPi(v) == SinR(2 * MulP(v, PiP \div 2))                    \* sin(pi v), 0 <= v <= P
HslAdjusted(k, q, h) ==
    CASE k = "saturation"         -> <<h[1], ClampP(Scale64(h[2], q[1])), h[3]>>
      [] k = "stretch_saturation" -> <<h[1], ClampP(Scale64(h[2] - P \div 2, q[1]) + P \div 2), h[3]>>
      [] k = "gamma_saturation"   -> <<h[1], PowInv(h[2], q[1]), h[3]>>
      [] k = "lightness"          -> <<h[1], h[2], ClampP(Scale64(h[3], q[1]))>>
      [] k = "hue_rotate"         -> <<(h[1] + DivR(q[1] * 4096, 15)) % (6 * P), h[2], h[3]>>     \* degrees * 64
      [] k = "vibrance"           ->
            LET w == SinR(2 * MulP(h[1] \div 2, PiP \div 6))
                w1 == Min2(P, (3 * w) \div 2) IN
            <<h[1], ClampP(h[2] + Scale64(MulP(SinPi(h[2]), w1), q[1])), h[3]>>
      [] k = "modulate"           -> <<Min2(6 * P, Max2(0, Scale64(h[1], q[1]))), ClampP(Scale64(h[2], q[2])), ClampP(Scale64(h[3], q[3]))>>
InHsl(k, q, c) == HslToRgb(HslAdjusted(k, q, HslOf(c)))
Neutral(k) == CASE k \in {"brightness", "hue_rotate", "vibrance"} -> <<0>>
                [] k = "brightness_contrast" -> <<0, 64>>
                [] k = "level" -> <<0, 64, 64>>
                [] k = "modulate" -> <<64, 64, 64>>
                [] OTHER -> <<64>>
===================================================================================
