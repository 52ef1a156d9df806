---------------------------------- MODULE TrGeom ----------------------------------
EXTENDS Geom, Wide, Json, IOUtils
VARIABLES l, b
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* a history on an image too large to write down
WideOk(e) ==
    LET r == LET step[k \in 0..Len(e.c)] == IF k = 0 THEN WideBuf(e.w, e.h) ELSE Apply(step[k - 1], e.c[k]) IN step[Len(e.c)] IN
    e.ok /\ r.w = e.nw /\ r.h = e.nh /\ Shows(r, e.at)
TrInit == l = 1 /\ b = Buf(0, 0, <<>>)
TrNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN b' = Buf(0, 0, <<>>)
       ELSE IF e.op = "wide" THEN WideOk(e) = TRUE /\ b' = b
       ELSE IF e.op = "img" THEN b' = Buf(e.w, e.h, e.px)
       ELSE /\ e.ok
            /\ b' = Apply(b, e)
            /\ SameBuf(b', e.st)
TrSpec == TrInit /\ [][TrNext]_<<l, b>>
TrInv == WellFormed(b)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
