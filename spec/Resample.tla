---------------------------------- MODULE Resample ----------------------------------
(* Sampling an image between its pixels (R01, R02, G02). Pixels are 4-tuples scaled *)
(* by S. A position on an axis is [b, t]: the pixel below it and the offset (0..S). *)
EXTENDS Real

\* ---- positions --------------------------------------------------------------
\* result pixel i of nw, source length ow: (i + 1/2) * ow / nw - 1/2, exactly
ResizePos(i, ow, nw) ==
    LET num == (2 * i + 1) * ow - nw
        den == 2 * nw IN
    [b |-> num \div den, t |-> DivR((num % den) * S, den)]
\* nearest: floor(i * ow / nw + 1/2); a tie may fall on either side
NearestIdx(i, ow, nw) ==
    LET q == 2 * i * ow + nw
        k == q \div (2 * nw) IN
    IF q % (2 * nw) = 0 THEN {ClampI(0, k, ow - 1), ClampI(0, k - 1, ow - 1)} ELSE {ClampI(0, k, ow - 1)}

\* ---- weights: [lo |-> first tap relative to b, w |-> weights], scaled by S -----
Linear(t) == [lo |-> 0, w |-> <<S - t, t>>]
\* Catmull-Rom
Cubic(t) ==
    LET t2 == Mul(t, t)
        t3 == Mul(t2, t) IN
    [lo |-> -1, w |-> <<(2 * t2 - t - t3) \div 2,
                        (3 * t3 - 5 * t2) \div 2 + S,
                        (t + 4 * t2 - 3 * t3) \div 2,
                        (t3 - t2) \div 2>>]
\* sinc(v) * sinc(v/3) for v = 0, 1/64, .. 3
LTab == <<
    16384, 16377, 16355, 16318, 16267, 16202, 16122, 16028, 15921, 15799, 15664, 15515, 15354,
    15179, 14993, 14794, 14583, 14361, 14128, 13884, 13630, 13366, 13093, 12811, 12521, 12223,
    11917, 11605, 11287, 10962, 10633, 10299, 9960, 9618, 9273, 8926, 8576, 8226, 7874, 7522,
    7170, 6819, 6470, 6122, 5776, 5434, 5094, 4758, 4427, 4100, 3778, 3462, 3151, 2847, 2549,
    2258, 1975, 1699, 1431, 1171, 919, 676, 442, 216, 0, -207, -405, -593, -772, -941, -1101,
    -1251, -1391, -1522, -1643, -1755, -1858, -1951, -2035, -2111, -2177, -2235, -2284, -2325,
    -2358, -2383, -2400, -2410, -2413, -2409, -2398, -2381, -2359, -2330, -2296, -2257, -2213,
    -2165, -2113, -2056, -1996, -1933, -1867, -1799, -1728, -1654, -1580, -1504, -1426, -1348,
    -1269, -1190, -1111, -1032, -953, -875, -798, -721, -646, -573, -501, -431, -362, -296,
    -232, -170, -111, -54, 0, 52, 100, 147, 190, 230, 268, 303, 335, 364, 390, 414, 435, 453,
    468, 481, 492, 500, 506, 509, 511, 510, 507, 503, 497, 489, 479, 469, 457, 444, 429, 414,
    398, 382, 365, 347, 329, 311, 292, 274, 256, 237, 219, 202, 184, 167, 151, 136, 121, 106,
    93, 80, 68, 57, 47, 38, 30, 23, 17, 12, 7, 4, 2, 0, 0>>
\* v >= 0 scaled by S
Window3(v) ==
    IF v >= 3 * S THEN 0
    ELSE LET i == v \div 256
             f == v % 256 IN
         LTab[i + 1] + ((LTab[i + 2] - LTab[i + 1]) * f + 128) \div 256
\* window of n pixels to each side: the sinc stretched to the window (unnormalised, scaled by 4096)
Lanczos(n, t) ==
    [lo |-> -n, w |-> [i \in 1..(2 * n + 1) |-> (Window3((AbsI((i - 1 - n) * S - t) * 3) \div n) + 2) \div 4]]

Total(k) == SeqSum(k.w)
\* average of the values V(offset) with weights k
\* (values split into two parts of 7 bits and more: wide windows would overflow)
Weighted(k, V(_)) ==
    LET v == [i \in 1..Len(k.w) |-> V(k.lo + i - 1)]
        n == Total(k)
        high == SeqSum([i \in 1..Len(k.w) |-> k.w[i] * (v[i] \div 128)])
        low == SeqSum([i \in 1..Len(k.w) |-> k.w[i] * (v[i] % 128)]) IN
    128 * (high \div n) + DivR(128 * (high % n) + low, n)

\* ---- filters ------------------------------------------------------------------
\* the sinc window for reducing ow x oh to nw x nh: two source steps per result pixel, at least 3
CeilDiv(a, b) == (a + b - 1) \div b
WindowSize(ow, oh, nw, nh) == Max3(3, CeilDiv(2 * ow, nw), CeilDiv(2 * oh, nh))
Filter(f, ow, oh, nw, nh) ==
    IF f # "auto" THEN [k |-> f, n |-> 3]
    ELSE IF ow <= nw \/ oh <= nh THEN [k |-> "bicubic", n |-> 2]
    ELSE [k |-> "lanczos3", n |-> WindowSize(ow, oh, nw, nh)]
Weights(f, t) ==
    CASE f.k = "bilinear" -> Linear(t)
      [] f.k = "bicubic"  -> Cubic(t)
      [] f.k = "lanczos3" -> Lanczos(f.n, t)
\* channel c at (px, py)
SampleAt(b, f, px, py, c) ==
    LET kx == Weights(f, px.t)
        ky == Weights(f, py.t)
        Row(dy) == Weighted(kx, LAMBDA dx : PxClamped(b, px.b + dx, py.b + dy)[c]) IN
    Clamp01(Weighted(ky, Row))
Sample(b, f, px, py) == [c \in 1..4 |-> SampleAt(b, f, px, py, c)]
\* the pixels a sample may depend on (a superset: one more on either side)
Reach(f) == CASE f.k = "nearest" -> 1 [] f.k = "bilinear" -> 2 [] f.k = "bicubic" -> 3 [] OTHER -> f.n + 1
Support(b, f, x0, y0) ==
    LET r == Reach(f) IN
    {PxClamped(b, x, y) : x \in Max2(0, x0 - r)..Min2(b.w - 1, x0 + r), y \in Max2(0, y0 - r)..Min2(b.h - 1, y0 + r)}

\* ---- rotation -------------------------------------------------------------------
\* where result pixel (x, y) comes from: turned back, i.e. counterclockwise, about the centre
RotPos(x, y, w, h, q) ==
    LET a == 2 * x + 1 - w          \* twice the distance from the centre
        d == 2 * y + 1 - h
        s == Sin64(q)
        c == Cos64(q) IN
    [x |-> (a * c + d * s + (w - 1) * P) \div 2, y |-> (d * c - a * s + (h - 1) * P) \div 2]
AxisPos(p) == [b |-> p \div P, t |-> ((p % P) + 32) \div 64]
\* the pixel it rounds to; within Eps of the middle both neighbours are possible
Eps == 128
RoundSet(p) == {(p + P \div 2 + e) \div P : e \in {-Eps, 0, Eps}}
RotFilter(f) == IF f = "auto" THEN [k |-> "bicubic", n |-> 2] ELSE [k |-> f, n |-> 3]

\* ---- resize_pct: pct in 1/8 percent ------------------------------------------------
\* round(w * pct / 100), at least 1 (an exact half may go either way)
Scaled(w, p8) == LET q == 2 * w * p8 + 800 IN
    {Max2(1, q \div 1600)} \cup (IF q % 1600 = 0 THEN {Max2(1, q \div 1600 - 1)} ELSE {})
==================================================================================
