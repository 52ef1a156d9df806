---------------------------------- MODULE TrBlend ----------------------------------
EXTENDS Blend, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == 8
MinChroma == 600                    \* below this an LCH hue is noise

PxA(e, x, y) == Px(Buf(e.w1, e.h1, e.px1), x, y)
PxB(e, x, y) == Px(Buf(e.w2, e.h2, e.px2), x, y)

\* LCH: the driver logs, for the pixel, the LCH forms q1, q2, the target tq it derived and that
\* target's colour rgb (reference conversion); the target must be the specified one
LchOk(e, i, p1, r) ==
    LET g == e.lch[i]
        want == LchTarget(e.k, g.q1, g.q2, e.t)
        hueCounts == e.k \in {"lch_hue", "lch_color"}
        clear == IF e.k = "lch_saturation" THEN g.q1[2] > MinChroma ELSE ~hueCounts \/ (g.q1[2] > MinChroma /\ g.q2[2] > MinChroma
                                /\ ~Close(AbsI(g.q1[3] - g.q2[3]), PI16, 300)) IN
    /\ Close(g.tq[1], want[1], 3) /\ Close(g.tq[2], want[2], 3)
    /\ clear => Close(g.tq[3], want[3], 6) \/ Close(AbsI(g.tq[3] - want[3]), 2 * PI16, 6)
    /\ clear => \A c \in 1..3 : Close(r[c], Clamp01(g.rgb[c]), 24)
    /\ \A c \in 1..3 : InUnit(r[c])

PixelOk(e, x, y) ==
    LET r == Px(Buf(e.w, e.h, e.v), x, y)
        in1 == x < e.w1 /\ y < e.h1
        in2 == x < e.w2 /\ y < e.h2 IN
    IF in1 /\ in2 THEN
        LET p1 == PxA(e, x, y)
            p2 == PxB(e, x, y) IN
        /\ Close(r[4], AlphaOf(e.k, p1, p2, e.t), 2)
        /\ IF e.k \in RgbOps \cup {"normal"} THEN CloseRgb(r, Moved(e.k, p1, p2, e.t), 4)
           ELSE IF e.k \in HslOps THEN CloseRgb(r, HslResult(e.k, p1, p2, e.t), Tol)
           ELSE LchOk(e, y * e.w + x + 1, p1, r)
    ELSE IF in1 THEN r = PxA(e, x, y)
    ELSE IF in2 THEN r = PxB(e, x, y)
    ELSE r = <<0, 0, 0, 0>>
Ok(e) ==
    /\ e.ok
    /\ e.w = Max2(e.w1, e.w2) /\ e.h = Max2(e.h1, e.h2)
    /\ Len(e.v) = e.w * e.h
    /\ \A x \in 0..(e.w - 1), y \in 0..(e.h - 1) : PixelOk(e, x, y)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
