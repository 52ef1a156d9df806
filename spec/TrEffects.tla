---------------------------------- MODULE TrEffects ----------------------------------
(* Recorded drawings with every step, and JPEG simulations with the decoded picture.    *)
EXTENDS Effects, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N(e) == e.w * e.h
Full(e, s) == Len(s) = N(e)
Near(a, b, t) == \A k \in 1..Len(b) : Close(a[k], b[k], t)
Each(e, F(_)) == \A i \in 1..N(e) : F(i)
\* a few positions of every picture: the corners, the middle, one of its own
Spots(e) == {1, N(e), e.w, 1 + (e.spot % N(e)), (N(e) + 1) \div 2}
Coarse4(p) == [k \in 1..4 |-> Coarse(p[k])]
BlurStep(e, from, to, r, sg) ==
    LET b == CoarseBuf(e.w, e.h, from) IN
    \A i \in Spots(e) : Near(Coarse4(to[i]), [k \in 1..4 |-> BlurAt(b, r, sg, XOf(b, i), YOf(b, i), k)], 10)
SharpStep(e, from, to, r, sg, f16) ==
    LET b == CoarseBuf(e.w, e.h, from) IN
    \A i \in Spots(e) : Near(Coarse4(to[i]), [k \in 1..4 |-> UnsharpAt(b, r, sg, f16, XOf(b, i), YOf(b, i), k)], 10 + f16)
\* comparisons too close to call make later pictures ambiguous
Shaky(e) ==
    LET g == Buf(e.w, e.h, e.sharp) IN
    \E i \in 1..N(e) :
        \/ \E c \in 1..3 : NearB(e.o[i][c]) \/ NearB(e.s[i][c])
        \/ Close(StrokeRatio(e.o[i], e.s[i], {c \in 1..3 : e.o[i][c] > Bright \/ e.s[i][c] > Bright}), Bright, 96)
        \/ Close(SumAt(g, XOf(g, i), YOf(g, i)), LoneLimit, 64)
Vague(e) == \E i \in 1..N(e) : LET d == Chroma(e.g3[i]) IN d > 4 /\ d < 8192     \* a hue that is hardly one
Opaque(p) == Close(p[4], P, 2)
GreyP(p) == p[1] = p[2] /\ p[2] = p[3]
InRange(p) == \A k \in 1..4 : p[k] >= 0 /\ p[k] <= P
Sized(e, s) == e.rw = e.w /\ e.rh = e.h /\ Full(e, s)
Drawing(e) ==
    LET a == e.px IN
    \* the steps
    /\ Each(e, LAMBDA i : Near(e.lift[i], <<Lifted(a[i][1]), Lifted(a[i][2]), Lifted(a[i][3]), a[i][4]>>, 4))
    /\ BlurStep(e, e.lift, e.b, 1, 8)
    /\ SharpStep(e, e.b, e.u, 4, 80, 64)
    /\ Each(e, LAMBDA i : Near(e.o[i], <<Outlined(e.u[i][1]), Outlined(e.u[i][2]), Outlined(e.u[i][3])>>, 4))
    /\ BlurStep(e, e.lift, e.s, e.radius, DefaultSigma(e.radius))
    /\ Each(e, LAMBDA i : GreyP(e.ink[i]) /\ e.ink[i][4] = P /\ StrokeOk(e.o[i], e.s[i], e.ink[i][1]))
    /\ SharpStep(e, e.ink, e.sharp, 2, 16, 16)
    /\ LET g == Buf(e.w, e.h, e.sharp) IN
       Shaky(e) \/ Each(e, LAMBDA i : Close(e.clean[i][1], Cleaned(g, XOf(g, i), YOf(g, i)), 8))
    \* the grey drawing
    /\ Sized(e, e.gray)
    /\ Each(e, LAMBDA i : GreyP(e.gray[i]) /\ Opaque(e.gray[i]) /\ InRange(e.gray[i]))
    /\ Shaky(e) \/ Each(e, LAMBDA i : Near(e.gray[i], e.clean[i], 128))
    \* colours limited by it
    /\ Sized(e, e.colored)
    /\ Each(e, LAMBDA i : e.colored[i][4] = a[i][4] /\ InRange(e.colored[i]))
    /\ Each(e, LAMBDA i : Near(e.colored[i], Limited(a[i], e.gray[i][1]), 400))
    \* reduced colours
    /\ Each(e, LAMBDA i : Near(e.r0[i], Reduced(a[i]), 64) /\ e.r0[i][4] = a[i][4])
    /\ BlurStep(e, e.r0, e.r2, 2, 16)
    /\ Each(e, LAMBDA i : Near(e.t1[i], Tinted(e.clean[i][1], HsvOf(e.r2[i])[2]), 64))
    /\ BlurStep(e, a, e.g3, 3, 24)
    /\ Vague(e) \/ Each(e, LAMBDA i : Near(e.t2[i], Hued(e.t1[i], HsvOf(e.g3[i])[1]), 400))
    /\ BlurStep(e, a, e.g4, 4, 32)
    /\ Each(e, LAMBDA i : Near(e.t3[i], Shaded(e.t2[i], HsvOf(e.g4[i])[3]), 64))
    /\ SharpStep(e, e.t3, e.t4, 3, 24, 24)
    /\ Each(e, LAMBDA i : Near(e.t5[i], Enriched(e.t4[i]), 2000))
    /\ Sized(e, e.reduced)
    /\ Each(e, LAMBDA i : Opaque(e.reduced[i]) /\ InRange(e.reduced[i]))
    /\ Shaky(e) \/ Vague(e) \/ Each(e, LAMBDA i : Near(e.reduced[i], e.t5[i], 2000))
Jpeg(e) ==
    /\ Sized(e, e.v) /\ Full(e, e.dec)
    /\ Each(e, LAMBDA i : Near(e.v[i], <<e.dec[i][1], e.dec[i][2], e.dec[i][3]>>, 2)
                          /\ e.v[i][4] = IF e.keep THEN e.px[i][4] ELSE P)
Ok(e) == e.ok /\ IF e.op = "drawing" THEN Drawing(e) ELSE Jpeg(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
======================================================================================
