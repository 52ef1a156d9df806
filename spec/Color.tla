----------------------------------- MODULE Color -----------------------------------
(* The colour models, all scaled by P (hues as sixths of the circle: 0..6P; LCH hue in *)
(* radians; Lab and LCH divided as in the library: L by 100, a, b and C by 128).        *)
EXTENDS Real

DotP(m, c) == MulP(m[1], c[1]) + MulP(m[2], c[2]) + MulP(m[3], c[3])
MulBig(v, w) == IF v > P THEN 4 * MulP(v \div 4, w) ELSE MulP(v, w)
\* ---- sRGB transfer curve ---------------------------------------------------------
Encode(v) == IF v <= 3283 THEN (v * 1292 + 50) \div 100
             ELSE LET p == PowP(v, 5, 12) IN p + (p * 55 + 500) \div 1000 - 57672
Decode(v) == IF v <= 42415 THEN (v * 100 + 646) \div 1292
             ELSE PowP(DivP(v + 57672, P + 57672), 12, 5)
ToSrgb(c) == <<Encode(c[1]), Encode(c[2]), Encode(c[3])>>
FromSrgb(c) == <<Decode(ClampP(c[1])), Decode(ClampP(c[2])), Decode(ClampP(c[3]))>>

\* ---- YUV of the sRGB values (Rec. 601) ---------------------------------------------
ToYuv(c) ==
    LET s == ToSrgb(c)
        y == DotP(<<313524, 615514, 119538>>, s) IN
    <<y, MulP(516016, s[3] - y), MulP(919898, s[1] - y)>>        \* 0.492111, 0.877283
FromYuv(q) ==      \* 1.139883, 0.394642, 0.580622, 2.032062 (halved factors)
    LET y == q[1]
        s == <<y + 2 * MulP(597627, q[3]), y - MulP(413812, q[2]) - MulP(608826, q[3]), y + 2 * MulP(1065386, q[2])>> IN
    FromSrgb(s)

\* ---- CIE ---------------------------------------------------------------------------
ToXyz(c) == <<DotP(<<432488, 374950, 189187>>, c), DotP(<<223002, 749900, 75675>>, c), DotP(<<20273, 124983, 996385>>, c)>>
\* inverse matrix, whole parts separated
FromXyz(q) ==
    LET x == q[1]  y == q[2]  z == q[3]
        r == 3 * x - y + MulP(252161, x) - MulP(563243, y) - MulP(522752, z)
        g == 2 * y - MulBig(x, 1016339) - MulP(130033, y) + MulP(43575, z)
        b == z + MulP(58351, x) - MulP(213955, y) + MulP(60095, z) IN
    <<ClampP(r), ClampP(g), ClampP(b)>>
\* reference whites: illuminant, observer
White(i, o) ==
    CASE i = "D50" /\ o = 2  -> <<1011050, P, 865273>>
      [] i = "D50" /\ o = 10 -> <<1014189, P, 853835>>
      [] i = "D65" /\ o = 2  -> <<996640, P, 1141721>>
      [] i = "D65" /\ o = 10 -> <<994151, P, 1125176>>
      [] OTHER -> <<P, P, P>>
\* v / w for 0 <= v < 2w
Over(v, w) == IF v > w THEN P + DivP(v - w, w) ELSE DivP(v, w)
LabF(t) == IF t <= 9286 THEN (t * 9033) \div 1160 + 144631 ELSE CbrtP(t)
ToLab(c, w) ==
    LET x == ToXyz(c)
        fx == LabF(Over(x[1], w[1]))
        fy == LabF(Over(x[2], w[2]))
        fz == LabF(Over(x[3], w[3])) IN
    <<(116 * fy - 16 * P + 50) \div 100, DivR(500 * (fx - fy), 128), DivR(200 * (fy - fz), 128)>>
Cube(v) == IF v > P THEN LET h == (v + 1) \div 2 IN 8 * MulP(h, MulP(h, h)) ELSE MulP(v, MulP(v, v))
LabG(v) == IF v > 216943 THEN Cube(v)
           ELSE IF v < -800000 THEN 4 * DivR(((v - 144631) \div 4) * 1000, 7787)
           ELSE DivR((v - 144631) * 1000, 7787)
FromLabXyz(q, w) ==
    LET fy == (100 * q[1] + 16 * P + 58) \div 116
        fx == DivR(q[2] * 128, 500) + fy
        fz == fy - DivR(q[3] * 128, 200) IN
    <<MulBig(LabG(fx), w[1]), MulBig(LabG(fy), w[2]), MulBig(LabG(fz), w[3])>>
FromLab(q, w) == FromXyz(FromLabXyz(q, w))
Hypot(a, b) == LET m == Max2(AbsI(a), AbsI(b))
                   n == Min2(AbsI(a), AbsI(b))
                   t == IF m = 0 THEN 0 ELSE DivP(n, m) IN
               MulU(SqrtP(P + MulU(t, t)), m)
LabToLch(q) == <<q[1], Hypot(q[2], q[3]), Atan2P(q[3], q[2])>>
LchToLab(q) == <<q[1], MulP(q[2], CosR(q[3])), MulP(q[2], SinR(q[3]))>>
D65 == White("D65", 2)

\* ---- HSL and HSV ---------------------------------------------------------------------
HueP(c) ==
    LET mx == Max3(c[1], c[2], c[3])
        mn == Min3(c[1], c[2], c[3])
        d == mx - mn
        h == IF d = 0 THEN 0
             ELSE IF mx = c[1] THEN SDivP(c[2] - c[3], d)
             ELSE IF mx = c[2] THEN 2 * P + SDivP(c[3] - c[1], d)
             ELSE 4 * P + SDivP(c[1] - c[2], d) IN
    h % (6 * P)
Chroma(c) == Max3(c[1], c[2], c[3]) - Min3(c[1], c[2], c[3])
HslOf(c) ==
    LET mx == Max3(c[1], c[2], c[3])
        mn == Min3(c[1], c[2], c[3])
        sum == mx + mn
        den == IF sum > P THEN 2 * P - sum ELSE sum IN
    <<HueP(c), IF mx = mn THEN 0 ELSE DivP(mx - mn, den), sum \div 2>>
HsvOf(c) ==
    LET mx == Max3(c[1], c[2], c[3])
        mn == Min3(c[1], c[2], c[3]) IN
    <<HueP(c), IF mx = 0 THEN 0 ELSE DivP(mx - mn, mx), mx>>
TrapP(h) == LET x == h % (6 * P)
                d == IF x > 3 * P THEN 6 * P - x ELSE x IN ClampP(2 * P - d)
Hue2Rgb(h, c, m2) == LET f(k) == (m2 + 2 * MulU(TrapP(h - k * P), c) + 1) \div 2 IN <<f(0), f(2), f(4)>>
HslToRgb(q) ==
    LET c == MulP(P - AbsI(2 * q[3] - P), q[2]) IN Hue2Rgb(q[1], c, 2 * q[3] - c)
HsvToRgb(q) ==
    LET c == MulP(q[3], q[2]) IN Hue2Rgb(q[1], c, 2 * (q[3] - c))
\* ---- grey values -----------------------------------------------------------------------
Intensities == {"average", "rec601luma", "rec709luma", "brightness", "lightness", "saturation", "red", "green", "blue"}
Gray(k, c) ==
    CASE k = "average"    -> (c[1] + c[2] + c[3]) \div 3
      [] k = "rec601luma" -> DotP(<<313355, 615316, 119905>>, c)
      [] k = "rec709luma" -> DotP(<<222986, 749898, 75693>>, c)
      [] k = "brightness" -> Max3(c[1], c[2], c[3])
      [] k = "lightness"  -> (Max3(c[1], c[2], c[3]) + Min3(c[1], c[2], c[3])) \div 2
      [] k = "saturation" -> HslOf(c)[2]
      [] k = "red"        -> c[1]
      [] k = "green"      -> c[2]
      [] k = "blue"       -> c[3]
======================================================================================
