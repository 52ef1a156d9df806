----------------------------------- MODULE Hist -----------------------------------
(* Operations driven by the distribution of an image's own channel values.  An image is  *)
(* the sequence of its pixels (channels and alpha scaled by P): where a pixel stands      *)
(* plays no part.                                                                         *)
EXTENDS Color, FiniteSets, TLC

Count(b, T(_)) == Cardinality({i \in DOMAIN b : T(b[i])})
RoundBin(v) == LET x == 255 * ClampP(v) IN (x + P \div 2) \div P         \* nearest of 256 steps
FloorBin(v) == (255 * ClampP(v)) \div P                                  \* step reached

\* ---- equalise: cumulative share, the lowest step mapped to zero ----------------------
EqValue(bins, b) ==
    LET n == Len(bins)
        zero == Count(bins, LAMBDA k : k = 0) IN
    IF zero = n THEN 0 ELSE DivP(Count(bins, LAMBDA k : k <= b) - zero, n - zero)
EqModes == {"rgb", "srgb", "saturation", "lightness", "saturation_lightness"}
\* the treated channels of the mode's own colour model
EqModel(m, c) == CASE m = "rgb" -> <<c[1], c[2], c[3]>> [] m = "srgb" -> ToSrgb(c) [] OTHER -> HslOf(c)
EqTreated(m) == CASE m \in {"rgb", "srgb"} -> {1, 2, 3} [] m = "saturation" -> {2} [] m = "lightness" -> {3} [] OTHER -> {2, 3}
EqBack(m, q) == CASE m = "rgb" -> q [] m = "srgb" -> FromSrgb(q) [] OTHER -> HslToRgb(q)
Equalized(m, px) ==
    LET q == TLCEval([i \in DOMAIN px |-> EqModel(m, px[i])])
        b == TLCEval([k \in EqTreated(m) |-> TLCEval([i \in DOMAIN px |-> RoundBin(q[i][k])])]) IN
    [i \in DOMAIN px |-> EqBack(m, [k \in 1..3 |-> IF k \in EqTreated(m) THEN EqValue(b[k], b[k][i]) ELSE q[i][k]])]

\* ---- black and white point ----------------------------------------------------------
\* first step (from below, from above) at which more than thr/2000 of the pixels are passed;
\* 255 if there is none
Passed(n, all, thr) == n * 2000 > thr * all
\* (only a step that occurs can be the first)
SomeBin(bins) == {bins[i] : i \in DOMAIN bins}
BlackPoint(bins, thr) == LET c == {k \in SomeBin(bins) : Passed(Count(bins, LAMBDA b : b <= k), Len(bins), thr)} IN
    IF c = {} THEN 255 ELSE CHOOSE k \in c : \A o \in c : k <= o
WhitePoint(bins, thr) == LET c == {k \in SomeBin(bins) : Passed(Count(bins, LAMBDA b : b >= k), Len(bins), thr)} IN
    IF c = {} THEN 255 ELSE CHOOSE k \in c : \A o \in c : k >= o

\* ---- stretch contrast ------------------------------------------------------------------
GreyBin(c) == (85 * (c[1] + c[2] + c[3])) \div P
Linear(v, i, j) ==          \* step i to 0, step j to P
    LET x == 255 * v - i * P IN
    IF i # j THEN ClampP(DivR(x, j - i))
    ELSE IF x >= 40 * 255 THEN P ELSE IF x <= 0 THEN 0 ELSE ClampP((x * 32768) \div 255)
Stretched(px, thr) ==
    LET bins == TLCEval([i \in DOMAIN px |-> GreyBin(px[i])])
        lo == BlackPoint(bins, thr)
        hi == WhitePoint(bins, thr) IN
    [n \in DOMAIN px |-> IF lo = 0 /\ hi = 255 THEN <<px[n][1], px[n][2], px[n][3]>>
                         ELSE [k \in 1..3 |-> Linear(px[n][k], lo, hi)]]

\* ---- balance: every treated channel between its own extremes, softly for small spans -----
BalModes == {"rgb", "srgb", "hsv", "hsl", "lch"}
BalModel(m, c) == CASE m = "rgb" -> <<c[1], c[2], c[3]>> [] m = "srgb" -> ToSrgb(c) [] m = "hsv" -> HsvOf(c)
                    [] m = "hsl" -> HslOf(c) [] m = "lch" -> LabToLch(ToLab(c, D65))
BalTreated(m) == CASE m \in {"rgb", "srgb"} -> {1, 2, 3} [] m \in {"hsv", "hsl"} -> {2, 3} [] m = "lch" -> {1, 2}
Leveled(v, i, j) ==
    LET d == j - i
        t == TanhP(((AbsI(d) * 10 * (P \div 16)) \div 255) * 16)
        x == MulP(v - DivR(t * i, 255), t) IN
    IF d = 0 THEN v ELSE DivR(x * 255, d)
BalBack(m, q) == CASE m = "rgb" -> q [] m = "srgb" -> FromSrgb(q) [] m = "hsv" -> HsvToRgb(<<q[1], Max2(0, q[2]), q[3]>>)
                   [] m = "hsl" -> HslToRgb(q) [] m = "lch" -> FromLab(LchToLab(q), D65)
BalLimits(m, px, thr) ==
    LET b == TLCEval([k \in BalTreated(m) |-> TLCEval([i \in DOMAIN px |-> FloorBin(BalModel(m, px[i])[k])])]) IN
    [k \in BalTreated(m) |-> <<BlackPoint(b[k], thr), WhitePoint(b[k], thr)>>]
BalLeveled(m, lim, c) ==
    LET q == BalModel(m, c) IN [k \in 1..3 |-> IF k \in BalTreated(m) THEN Leveled(q[k], lim[k][1], lim[k][2]) ELSE q[k]]
===================================================================================
