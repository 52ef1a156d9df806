----------------------------------- MODULE Auto -----------------------------------
(* Automatic corrections: one setting derived from the whole image (a sequence of pixels, *)
(* scaled by P) is applied to every pixel on its own.  Factors are scaled by 64.          *)
EXTENDS Color, TLC

Recip(g) ==       \* 1/g, P/512 < g < 8P
    IF g < 2 * P THEN (P \div g) * P + DivP(P % g, g) ELSE DivP(P \div 4, g \div 4)
Mean(px, F(_)) == DivR(SeqSum([i \in DOMAIN px |-> F(px[i])]), Len(px))
\* v^(1/g); g <= 0 never stays below one
Root(v, g) == IF g <= 0 THEN P ELSE PowX(v, Recip(g))

\* ---- lightness ----------------------------------------------------------------------
LightnessGamma(px, f) ==
    LET avg2 == Mean(px, LAMBDA c : Max3(c[1], c[2], c[3]) + Min3(c[1], c[2], c[3])) IN      \* twice the mean
    P - DivR((avg2 - P) * f, 128)
Lightened(g, c) == <<Root(c[1], g), Root(c[2], g), Root(c[3], g)>>

\* ---- saturation ---------------------------------------------------------------------
SatModes == {"hsl", "hsv", "lch"}
SatModel(m, c) == CASE m = "hsl" -> HslOf(c) [] m = "hsv" -> HsvOf(c) [] m = "lch" -> LabToLch(ToLab(c, D65))
BrightAt(m, q) == IF m = "lch" THEN q[1] ELSE q[3]
SatGamma(px, o, m) ==
    LET avg == Mean(px, LAMBDA c : SatModel(m, c)[2]) IN 16384 * o + DivR((P - avg) * 2, 3)
\* dark and bright colours move less
Eased(g, b) == P + 2 * MulP((g - P) \div 2, P - AbsI(2 * b - P))
SatBack(m, q) == CASE m = "hsl" -> HslToRgb(q) [] m = "hsv" -> HsvToRgb(q) [] m = "lch" -> FromLab(LchToLab(q), D65)
\* the saturation a pixel in the mode's model q gets
Boosted(m, g, q, s) ==
    LET e == Eased(g, BrightAt(m, q)) IN
    IF e < P \div 400 THEN (IF s >= P THEN P ELSE 0) ELSE PowX(ClampP(s), Recip(e))

\* ---- colour temperature ----------------------------------------------------------------
\* chromaticities x, y per 1000 K
Locus == << <<684458, 361195>>, <<552260, 433374>>, <<458154, 423702>>, <<398919, 395047>>, <<361864, 368687>>,
            <<337728, 347867>>, <<321255, 331886>>, <<309525, 319568>>, <<300862, 309940>>, <<294265, 302290>>,
            <<289107, 296111>>, <<284985, 291044>> >>
Chromaticity(t) ==
    LET u == IF t < 1000 THEN 1000 ELSE IF t > 12000 THEN 12000 ELSE t
        i == u \div 1000
        f == u % 1000
        at(k) == IF f <= 1 THEN Locus[i][k] ELSE Locus[i][k] + DivR((Locus[i + 1][k] - Locus[i][k]) * f, 1000) IN
    <<at(1), at(2)>>
WhiteRgb(t) ==
    LET c == Chromaticity(t) IN
    FromXyz(<<Over(c[1], c[2]), P, Over(P - c[1] - c[2], c[2])>>)
\* v * o / n, at most one; both whites at least 1/32768
Tempered(v, o, n) == LET x == MulU(v, Max2(o, 32))
                         m == Max2(n, 32) IN IF Max2(o, 32) = m THEN v ELSE IF x >= m THEN P ELSE DivP(x, m)
\* the power that counters a tint of channel k, zero if there is none
TintWeight(k) == CASE k = 2 -> 100 [] k = 1 -> 25 [] k = 3 -> 33
TintPow(px, k, tc) ==
    LET avg == Mean(px, LAMBDA c : 3 * c[k] - c[1] - c[2] - c[3])
        a == DivR(DivR(avg * tc, 64) * TintWeight(k), 100) IN
    IF tc <= 0 \/ a <= 0 THEN 0 ELSE Recip(P - TanhP(a))
Cooled(px, from, to, tc, c) ==
    LET o == WhiteRgb(from)
        n == WhiteRgb(to)
        pr == TintPow(px, 1, tc)
        pg == TintPow(px, 2, tc)
        pb == TintPow(px, 3, tc)
        r == Tempered(c[1], o[1], n[1])
        b == Tempered(c[3], o[3], n[3]) IN
    <<IF pr > 0 THEN PowX(r, pr) ELSE r, Tempered(IF pg > 0 THEN PowX(c[2], pg) ELSE c[2], o[2], n[2]), IF pb > 0 THEN PowX(b, pb) ELSE b>>
AutoTemperature(px, f) ==
    LET a == Mean(px, LAMBDA c : c[1] - c[3])
        t == IF a < 0 THEN -TanhP(-a) ELSE TanhP(a) IN
    6500 - DivR(DivR(t, 64) * f * 125, 32768)
===================================================================================
