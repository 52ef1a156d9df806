--------------------------------- MODULE TrForeign ---------------------------------
EXTENDS Foreign, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Pixel(e, s) == CASE e.kind = "png" -> PngPixel(e.ctype, e.bits, s, e.pal, e.trns)
                 [] e.kind \in {"bmp", "ico", "gif"} /\ e.pal # <<>> -> PalPixel(s[1], e.pal, e.key)
                 [] e.kind \in {"bmp", "ico"} -> [i \in 1..4 |-> IF i > Len(s) THEN U ELSE Scale(s[i], e.depth)]
                 [] e.kind = "cmyk" -> CmykPixel(s)
                 [] e.kind = "ljpeg" -> LosslessPixel(e.bits, s)
\* how far a channel may be off: exact but for scaled 5 bit channels and JPEG
Slack(e) == IF e.kind = "cmyk" THEN (Level * 3) \div 4 ELSE IF e.depth = 5 THEN Level ELSE 2 * Noise
Read(e) ==
    /\ e.err = "" /\ e.inside /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.px) = Len(e.got)
    /\ \A i \in DOMAIN e.px :
          LET p == Pixel(e, e.px[i])
              d == e.got[i] IN
          /\ AbsI(d[4] - p[4]) <= 2 * Noise
          \* the colour of a clear pixel does not matter
          /\ (p[4] = 0 /\ e.kind # "png") \/ \A c \in 1..3 : AbsI(d[c] - p[c]) <= Slack(e)
Ok(e) == CASE e.op = "read" -> Read(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
