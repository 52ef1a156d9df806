---------------------------------- MODULE Palette ----------------------------------
(* Palettes: a sequence of colours (r, g, b, alpha scaled by P); a pixel becomes the one *)
(* nearest in Lab (D65, 2 degrees), the first of those equally near.                     *)
EXTENDS Color
LabAt(c) == ToLab(c, D65)
Down(v) == IF v < 0 THEN -((32 - v) \div 64) ELSE (v + 32) \div 64
Sq(v) == v * v
\* squared distance, scaled by (P/64)^2; at most 6 * 2^28
Dist2(p, q) == Sq(Down(p[1] - q[1])) + Sq(Down(p[2] - q[2])) + Sq(Down(p[3] - q[3]))
Rgb3(c) == <<c[1], c[2], c[3]>>
SameRgb(a, b) == Rgb3(a) = Rgb3(b)
First(pal, k) == \A j \in 1..k - 1 : ~SameRgb(pal[j], pal[k])
\* indices a pixel may map to; slack m (in 1/16384) for rounding in the distances
May(labs, pal, p, m) ==
    LET d == [k \in DOMAIN pal |-> Dist2(p, labs[k])]
        l1(k) == AbsI(Down(p[1] - labs[k][1])) + AbsI(Down(p[2] - labs[k][2])) + AbsI(Down(p[3] - labs[k][3])) IN
    {k \in DOMAIN pal : First(pal, k) /\ \A j \in DOMAIN pal : d[k] <= d[j] + 2 * m * l1(j) + m * m}
Nearest(labs, pal, p) == IF pal = <<>> THEN 0 ELSE
    LET d == [k \in DOMAIN pal |-> Dist2(p, labs[k])] IN
    CHOOSE k \in DOMAIN pal : (\A j \in DOMAIN pal : d[k] <= d[j]) /\ \A j \in 1..k - 1 : d[j] > d[k]
Applied(pal, c) == IF pal = <<>> THEN <<0, 0, 0, 0>> ELSE
    LET labs == [k \in DOMAIN pal |-> LabAt(pal[k])] IN pal[Nearest(labs, pal, LabAt(c))]
====================================================================================
