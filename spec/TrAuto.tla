---------------------------------- MODULE TrAuto ----------------------------------
EXTENDS Auto, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
Between(v, a, b, t) == v >= Min2(a, b) - t /\ v <= Max2(a, b) + t
Unit3(c) == \A k \in 1..3 : c[k] >= 0 /\ c[k] <= P
LightOk(e) ==
    LET g == LightnessGamma(e.px, e.q[1]) IN
    \A i \in DOMAIN e.px : IF g > -200 /\ g < P \div 50 THEN Unit3(e.v[i])
        ELSE \A k \in 1..3 : Between(e.v[i][k], Root(e.px[i][k], g - 2), Root(e.px[i][k], g + 2), 6)
SatOk(e) ==
    LET g == TLCEval(SatGamma(e.px, e.q[1], e.m)) IN
    \A i \in DOMAIN e.px :
        LET c == e.px[i]
            q == TLCEval(SatModel(e.m, c))
            d == IF e.m = "lch" THEN 150 ELSE 3
            at(s) == SatBack(e.m, <<q[1], Boosted(e.m, g, q, s), q[3]>>)
            grey == IF e.m = "lch" THEN q[2] < 6000 ELSE Chroma(c) = 0
            lo == TLCEval(at(Max2(0, q[2] - d)))
            hi == TLCEval(at(Min2(P, q[2] + d)))
            e0 == Eased(g, BrightAt(e.m, q)) IN
        IF e0 < P \div 300 THEN \A k \in 1..3 : Finite(e.v[i][k])       \* a jump: rounding decides
        ELSE IF grey /\ e.m # "lch" THEN Near3(e.v[i], c, 3)
        ELSE IF grey THEN Near3(e.v[i], c, 400 + 4 * Max2(q[2], Boosted(e.m, g, q, q[2] + d)))
        ELSE \A k \in 1..3 : Between(e.v[i][k], lo[k], hi[k], IF e.m = "lch" THEN 600 ELSE 24)
TempOk(e, from, to) ==
    LET o == TLCEval(WhiteRgb(from))
        n == TLCEval([k \in 1..3 |-> IF to[1] = to[2] THEN WhiteRgb(to[1])[k] ELSE Min2(WhiteRgb(to[1])[k], WhiteRgb(to[2])[k])])
        n2 == TLCEval([k \in 1..3 |-> IF to[1] = to[2] THEN n[k] ELSE Max2(WhiteRgb(to[1])[k], WhiteRgb(to[2])[k])])
        same == from = to[1] /\ to[1] = to[2]
        slack(k) == IF same THEN 3 ELSE 10 + (20 * P) \div Max2(n[k], 32)
        tc == e.q[Len(e.q)]
        pow == TLCEval([k \in 1..3 |-> TintPow(e.px, k, tc)]) IN
    \A i \in DOMAIN e.px : \A k \in 1..3 :
        LET v == e.px[i][k]
            base == IF k = 2 /\ pow[2] > 0 THEN PowX(v, pow[2]) ELSE v
            ext == IF k = 2 /\ pow[2] > 0 THEN 90 ELSE 0
            lo == Tempered(Max2(0, base - ext), o[k], n2[k]) - slack(k)
            hi == Tempered(Min2(P, base + ext), o[k], n[k]) + slack(k) IN
        IF k = 2 \/ pow[k] = 0 THEN e.v[i][k] >= lo /\ e.v[i][k] <= hi
        ELSE e.v[i][k] >= PowX(ClampP(lo), pow[k]) - 90 /\ e.v[i][k] <= PowX(ClampP(hi), pow[k]) + 90
Ok(e) ==
    /\ e.ok /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.v) = e.w * e.h
    /\ \A i \in DOMAIN e.v : e.v[i][4] = e.px[i][4]
    /\ CASE e.op = "lightness" -> LightOk(e)
         [] e.op = "saturation" -> SatOk(e)
         [] e.op = "temperature" -> TempOk(e, e.q[1], <<e.q[2], e.q[2]>>)
         [] e.op = "auto_temperature" -> LET t == AutoTemperature(e.px, e.q[1]) IN TempOk(e, 6500, IF e.q[1] = 0 THEN <<t, t>> ELSE <<t - 1, t + 1>>)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
