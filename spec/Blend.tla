----------------------------------- MODULE Blend -----------------------------------
(* Blending two images (C02), fixed point. Pixels are <<r, g, b, a>>.               *)
EXTENDS FX
PI16 == 51472                       \* pi * S

RgbOps == {"addition", "subtract", "darken", "lighten"}
HslOps == {"hsl_darken", "hsl_lighten"}
LchOps == {"lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color"}
Ops == {"normal"} \cup RgbOps \cup HslOps \cup LchOps

OpValue(op, v1, v2) ==
    CASE op = "addition" -> v1 + v2
      [] op = "subtract" -> v1 - v2
      [] op = "darken"   -> Min2(v1, v2)
      [] op = "lighten"  -> Max2(v1, v2)
      [] op = "normal"   -> v2
\* per channel: move v1 towards the operation's value by intensity * alpha of the second pixel
Moved(op, p1, p2, t) ==
    LET w == Mul(t, p2[4]) IN
    [i \in 1..3 |-> Clamp01(Lerp(p1[i], OpValue(op, p1[i], p2[i]), w))]

\* the shorter way round the circle; result in (-pi, pi]
HueMoved(h1, h2, t) ==
    LET d == h2 - h1
        e == IF d > PI16 THEN d - 2 * PI16 ELSE IF d < -PI16 THEN d + 2 * PI16 ELSE d
        h == h1 + Mul(e, t) IN
    IF h > PI16 THEN h - 2 * PI16 ELSE IF h <= -PI16 THEN h + 2 * PI16 ELSE h

\* LCH form: p1, p2 given as <<l, c, h>>
LchTarget(op, q1, q2, t) ==
    CASE op = "lch_darken"     -> <<Lerp(q1[1], Min2(q1[1], q2[1]), t), q1[2], q1[3]>>
      [] op = "lch_lighten"    -> <<Lerp(q1[1], Max2(q1[1], q2[1]), t), q1[2], q1[3]>>
      [] op = "lch_hue"        -> <<q1[1], q1[2], HueMoved(q1[3], q2[3], t)>>
      [] op = "lch_saturation" -> <<q1[1], Lerp(q1[2], q2[2], t), q1[3]>>
      [] op = "lch_color"      -> <<q1[1], Lerp(q1[2], q2[2], t), HueMoved(q1[3], q2[3], t)>>

HslResult(op, p1, p2, t) ==
    LET a == ToHsl(p1[1], p1[2], p1[3])
        b == ToHsl(p2[1], p2[2], p2[3])
        l == IF op = "hsl_darken" THEN Min2(a.l, b.l) ELSE Max2(a.l, b.l)
        rgb == FromHsl(a.h, a.s, Lerp(a.l, l, t)) IN
    [i \in 1..3 |-> Clamp01(rgb[i])]

\* resulting alpha: normal adds the (scaled) second alpha, the RGB operations take the second
\* image's, the HSL/LCH ones keep the first's
AlphaOf(op, p1, p2, t) ==
    IF op = "normal" THEN Min2(S, p1[4] + Mul(p2[4], t))
    ELSE IF op \in RgbOps THEN p2[4] ELSE p1[4]
================================================================================
