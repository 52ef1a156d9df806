--------------------------------- MODULE TrPalette ---------------------------------
EXTENDS Palette, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(v, c, t) == \A i \in 1..4 : Close(v[i], c[i], t)
\* a pixel whose very colour is in the palette has it, however near the others are (a palette that comes in
\* another colour model is converted first, so its colours are only nearly what they were)
Own(e, i) == e.m \in {0, 6, 7} /\ (\E k \in DOMAIN e.pal : SameRgb(e.pal[k], e.px[i]))
             /\ (\A j \in DOMAIN e.pal : SameRgb(e.pal[j], e.px[i]) \/ \E x \in 1..3 : AbsI(e.pal[j][x] - e.px[i][x]) >= 40)
Clear == <<0, 0, 0, 0>>
Ok(e) ==
    /\ e.ok /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.v) = Len(e.px) /\ Len(e.again) = Len(e.px)
    /\ IF e.pal = <<>> THEN \A i \in DOMAIN e.px : e.v[i] = Clear /\ e.again[i] = Clear
       ELSE LET labs == TLCEval([k \in DOMAIN e.pal |-> LabAt(e.pal[k])]) IN
            \A i \in DOMAIN e.px :
               /\ LET may == May(labs, e.pal, LabAt(e.px[i]), 6) IN \E k \in may : Is(e.v[i], e.pal[k], 100)
               /\ Own(e, i) => \A x \in 1..3 : AbsI(e.v[i][x] - e.px[i][x]) <= 16
               /\ Is(e.again[i], e.v[i], 100)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====================================================================================
