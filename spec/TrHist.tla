---------------------------------- MODULE TrHist ----------------------------------
EXTENDS Hist, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
Clamp3(c) == <<ClampP(c[1]), ClampP(c[2]), ClampP(c[3])>>
EqOk(e) ==
    LET w == TLCEval(Equalized(e.m, e.px)) IN
    \A i \in DOMAIN e.px : Near3(e.v[i], w[i], IF e.m = "rgb" THEN 4 ELSE 24)
StretchOk(e) ==
    LET bins == TLCEval([i \in DOMAIN e.px |-> GreyBin(e.px[i])])
        lo == BlackPoint(bins, e.t)
        hi == WhitePoint(bins, e.t)
        tol == IF lo = hi THEN 4000 ELSE 4 + 60 \div (hi - lo) IN
    \A i \in DOMAIN e.px : IF lo = 0 /\ hi = 255 THEN Near3(e.v[i], e.px[i], 0)
                            ELSE \A k \in 1..3 : Close(e.v[i][k], Linear(e.px[i][k], lo, hi), tol)
Small(m, q) == IF m = "rgb" THEN TRUE
               ELSE \A k \in BalTreated(m) : AbsI(q[k]) <= IF m = "lch" THEN P + P \div 8 ELSE IF m = "hsl" THEN P + P \div 4 ELSE P + P \div 3
\* far outside the gamut only finiteness is asked for
Near(m, q) == Small(m, q) /\ (m = "lch" => (100 * q[1] + 16 * P) \div 116 - DivR(MulP(q[2], SinR(q[3])) * 16, 25) <= P + P \div 2)
BalOk(e) ==
    LET lim == TLCEval(BalLimits(e.m, e.px, e.t))
        one(k) == lim[k][2] - lim[k][1]
        err == 24 + Max2(0, 1500 \div Max2(1, (CHOOSE n \in {one(k) : k \in DOMAIN lim} : \A o \in {one(k) : k \in DOMAIN lim} : n <= o))) IN
    \A i \in DOMAIN e.px :
        LET q == TLCEval(BalLeveled(e.m, lim, e.px[i])) IN
        IF ~Near(e.m, q) THEN \A k \in 1..3 : Finite(e.v[i][k])
        ELSE LET w == BalBack(e.m, q) IN
             Near3(Clamp3(e.v[i]), Clamp3(w), IF e.m = "lch" THEN 16 * err ELSE IF e.m = "srgb" THEN 3 * err ELSE err)
Ok(e) ==
    /\ e.ok /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.v) = e.w * e.h
    /\ \A i \in DOMAIN e.v : e.v[i][4] = e.px[i][4]
    /\ CASE e.op = "equalize" -> EqOk(e) [] e.op = "stretch" -> StretchOk(e) [] e.op = "balance" -> BalOk(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
