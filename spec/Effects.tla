----------------------------------- MODULE Effects -----------------------------------
(* E01: effects composed of other operations.  The drawing effect is a pipeline: its     *)
(* state is the picture (or pictures) of the step reached; every step is one of the      *)
(* neighbourhood filters or a map of single pixels.  Pixels are scaled by P.             *)
EXTENDS Tone, Filters, TLC

\* ---- steps on single pixels ------------------------------------------------------------
Lifted(v) == ClampP((4 * v) \div 5 + P \div 5)
Outlined(v) == ClampP(P \div 2 + ((v - P \div 2) * 21) \div 20)
\* the ratio of the outline to the surroundings (a blur of the lifted picture), at most 4
Ratio(o, s) == LET d == Min2(s + P \div 100, P) IN
               IF d = 0 \/ o \div 4 >= d THEN 4 * P ELSE (o \div d) * P + DivP(o % d, d)
Mean3(c) == (c[1] + c[2] + c[3]) \div 3
Bright == (4 * P) \div 5
\* the channels that count: bright in the outline or in the surroundings
Smallest(Set0) == CHOOSE v \in Set0 : \A w \in Set0 : v <= w
StrokeRatio(o, s, chs) == Smallest({P, Ratio(Mean3(o), Mean3(s))} \cup {Ratio(o[c], s[c]) : c \in chs})
Ink(r) == Max2(0, ((r - P \div 2) * 6) \div 5)
Stroke(o, s) == LET r == StrokeRatio(o, s, {c \in 1..3 : o[c] > Bright \/ s[c] > Bright}) IN
                IF r > Bright THEN P ELSE Ink(r)
\* what is allowed if a comparison is too close to call
NearB(v) == Close(v, Bright, 24)
StrokeOk(o, s, v) ==
    LET sure == {c \in 1..3 : (o[c] > Bright \/ s[c] > Bright) /\ ~NearB(o[c]) /\ ~NearB(s[c])}
        open == {c \in 1..3 : NearB(o[c]) \/ NearB(s[c])} IN
    \E chs \in SUBSET open : LET r == StrokeRatio(o, s, sure \cup chs) IN
        \/ (r > Bright - 64) /\ Close(v, P, 8)
        \/ (r < Bright + 64) /\ Close(v, Ink(r), 64)
\* ---- the three looks -----------------------------------------------------------------------
\* the lightness is limited by the drawing's (a grey)
Limited(o, g) == LET q == HslOf(o) IN HslToRgb(<<q[1], q[2], Min2(q[3], g)>>)
Reduced(c) == LET q == HsvOf(c) IN
              HsvToRgb(<<q[1], q[2] \div 2, Min2(P, (2 * ((q[3] \div 2) * 13 + P \div 5)) \div 9)>>)
Tinted(g, sat) == HsvToRgb(<<0, sat, g>>)                  \* a grey with a saturation
Hued(c, hue) == LET q == HsvOf(c) IN HsvToRgb(<<hue, q[2], q[3]>>)
Shaded(c, v) == LET q == HsvOf(c) IN HsvToRgb(<<q[1], q[2], MulU(q[3], v)>>)
Enriched(c) ==
    LET h == HslOf(c)
        d == HslToRgb(<<h[1], ClampP((13 * h[2]) \div 10), h[3]>>)
        e == <<PowP(d[1], 10, 11), PowP(d[2], 10, 11), PowP(d[3], 10, 11)>>
        k == HslOf(e)
        w == Min2(P, (3 * SinR(2 * MulP(k[1] \div 2, PiP \div 6))) \div 2) IN
    HslToRgb(<<k[1], ClampP(k[2] + (3 * MulP(SinPi(k[2]), w)) \div 10), k[3]>>)
\* ---- steps over neighbourhoods ---------------------------------------------------------------
Coarse(v) == (v + 32) \div 64                                 \* from P to S
CoarseBuf(w, h, px) == Buf(w, h, [i \in DOMAIN px |-> <<Coarse(px[i][1]), Coarse(px[i][2]), Coarse(px[i][3]), Coarse(px[i][4])>>])
\* a dark pixel that is alone in its neighbourhood becomes the mean of the others
LoneLimit == (3 * P * 3) \div 20
SumAt(b, x, y) == LET p == PxClamped(b, x, y) IN p[1] + p[2] + p[3]
Lone(b, x, y) ==
    /\ SumAt(b, x, y) < LoneLimit
    /\ \A dx \in {-1, 0, 1}, dy \in {-1, 0, 1} : (dx = 0 /\ dy = 0) \/ SumAt(b, x + dx, y + dy) >= LoneLimit
Cleaned(b, x, y) ==
    IF Lone(b, x, y)
    THEN DivR(SeqSum([i \in 1..9 |-> IF i = 5 THEN 0 ELSE PxClamped(b, x - 1 + ((i - 1) % 3), y - 1 + ((i - 1) \div 3))[1]]), 8)
    ELSE Px(b, x, y)[1]
=======================================================================================
