---------------------------------- MODULE TrTone ----------------------------------
EXTENDS Tone, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Within(v, a, b, t) == v <= Max2(a, b) + t /\ v >= Min2(a, b) - t
\* powers are steep near zero: accept what the neighbouring values give
ChannelOk(k, q, r, v) ==
    IF k \in {"gamma", "gamma_opt", "level"}
    THEN LET a == Channel(k, q, v)
             lo == Channel(k, q, v - 1)
             hi == Channel(k, q, v + 1)
             \* both ends of a level that has no width, and values within its one step
             step == k = "level" /\ q[1] = q[2] /\ v > 16384 * q[1] /\ v < 16384 * q[1] + 40 IN
         step \/ Within(r, Min3(a, lo, hi), Max3(a, lo, hi), 6)
    ELSE Close(r, Channel(k, q, v), 3)
\* channels closer than 1/32768 (32 units) count as equal in HSL
NearTie(c) == \E i, j \in 1..3 : c[i] # c[j] /\ AbsI(c[i] - c[j]) <= 33
GreyTol(k, c) == IF k # "saturation" THEN 4 ELSE IF Chroma(c) <= 33 THEN P ELSE 6
\* saturation of very dark and very light colours divides by a small number
HslTol(k, q, c) ==
    LET h == HslOf(c)
        sum == 2 * h[3]
        den == IF sum > P THEN 2 * P - sum ELSE sum
        big == IF k \in {"lightness", "modulate", "gamma_saturation"} THEN 2 + P \div Max2(den, 32) ELSE 1 IN
    12 + 6 * big
    \* ... which moves the hue by up to 33 / chroma sixths, before the chroma may grow
    + (IF NearTie(c) THEN 50 + 34 * (1 + Chroma(InHsl(k, q, c)) \div Chroma(c)) ELSE 0)
HslOk(e) ==
    LET h == HslOf(e.c)
        w == InHsl(e.k, e.q, e.c)
        tol == HslTol(e.k, e.q, e.c) IN
    IF Chroma(e.c) > 0 /\ Chroma(e.c) <= 33 THEN \A i \in 1..3 : e.v[i] >= 0 /\ e.v[i] <= P
    ELSE IF e.k = "gamma_saturation" \/ e.k = "saturation" \/ e.k = "stretch_saturation" \/ e.k = "vibrance" THEN
        \* steep powers: neighbours of the saturation
        LET a(s) == HslToRgb(HslAdjusted(e.k, e.q, <<h[1], ClampP(s), h[3]>>)) 
            m == IF e.k = "gamma_saturation" THEN 2 ELSE 1
            lo == IF h[2] = 0 THEN w ELSE a(Max2(1, h[2] - m))
            hi == IF h[2] = 0 THEN w ELSE a(h[2] + m) IN
        \A i \in 1..3 : Within(e.v[i], Min3(w[i], lo[i], hi[i]), Max3(w[i], lo[i], hi[i]), tol)
    ELSE \A i \in 1..3 : Close(e.v[i], w[i], tol)
Ok(e) ==
    /\ e.ok /\ Len(e.v) = 4
    /\ IF e.k \in HslOps THEN HslOk(e) /\ e.v[4] = e.c[4]
       ELSE /\ e.v[4] = Alpha(e.k, e.c[4])
            /\ IF e.k \in ChannelOps THEN \A i \in 1..3 : ChannelOk(e.k, e.q, e.v[i], e.c[i])
               ELSE LET w == Adjusted(e.k, e.q, e.c, e.o) IN
                    \A i \in 1..3 : Close(e.v[i], w[i], IF e.k = "gray" THEN GreyTol(e.q[1], e.c) ELSE 3)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
