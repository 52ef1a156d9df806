-------------------------------- MODULE MCResample --------------------------------
(* Laws of the sampling definitions, and every small 1-D resize as a case.          *)
EXTENDS Resample, Json
CONSTANTS MaxW, MaxN, Vals         \* Vals: pixel values in halves
VARIABLE c
Fs == {"nearest", "bilinear", "bicubic", "lanczos3", "auto"}
Init == c \in UNION {[px : [1..w -> Vals], nw : 1..MaxN, f : Fs] : w \in 1..MaxW}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
W == Len(c.px)
G(px) == Gen(Len(px), 1, LAMBDA x, y : <<px[x + 1] * (S \div 2), S - px[x + 1] * (S \div 2), S \div 4, S>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
F == Filter(c.f, W, 1, c.nw, 1)
At(px, i) == Sample(G(px), F, ResizePos(i, W, c.nw), [b |-> 0, t |-> 0])
Near(a, b, t) == \A k \in 1..4 : Close(a[k], b[k], t)
Smooth == F.k # "nearest"
\* a sample of equal pixels is that pixel; alpha one stays one; everything stays in range
Flat == Smooth => \A i \in 0..(c.nw - 1) :
    LET v == At(c.px, i) IN
    /\ v[4] = S /\ v[3] = S \div 4
    /\ \A k \in 1..4 : InUnit(v[k])
    /\ (\A j \in 1..W : c.px[j] = c.px[1]) => v = G(c.px).px[1]
\* mirrored source gives the mirrored result
Mirror == Smooth => \A i \in 0..(c.nw - 1) : Near(At(c.px, i), At(Rev(c.px), c.nw - 1 - i), 20)
\* same size: positions are the pixels themselves
Identity == (Smooth /\ c.nw = W) => \A i \in 0..(W - 1) : Near(At(c.px, i), G(c.px).px[i + 1], 2)
NearestInside == \A i \in 0..(c.nw - 1) :
    LET s == NearestIdx(i, W, c.nw) IN s # {} /\ (\A k \in s : k >= 0 /\ k < W) /\ (i = 0 => 0 \in s)
\* a single step is resampled monotonically by linear weights
Mono == (c.f = "bilinear" /\ \A j \in 1..(W - 1) : c.px[j] <= c.px[j + 1]) =>
    \A i \in 0..(c.nw - 2) : At(c.px, i)[1] <= At(c.px, i + 1)[1] + 1
Emit == PrintT(ToJson(c))
================================================================================
