--------------------------------- MODULE TrNumpy ---------------------------------
EXTENDS Numpy, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
OrDefault(a, d) == IF a = "" THEN d ELSE a
\* arr[y][x][c]; comps[i]: the library's components of pixel i
Export(e) ==
    LET sp == OrDefault(e.space, DefaultSpace)
        t == OrDefault(e.type, DefaultType) IN
    IF sp \notin Spaces \/ t \notin Types THEN e.k = "error"
    ELSE /\ e.k = "ok" /\ e.dtype = t /\ e.same
         /\ e.shape = <<e.h, e.w, Channels(sp)>>
         /\ \A y \in 1..e.h : \A x \in 1..e.w :
               LET v == e.comps[(y - 1) * e.w + x] IN
               \A c \in 1..Channels(sp) : Stored(t, v[c], e.arr[y][x][c])
\* an image of steps of the type comes out as those steps
Steps(e) == /\ e.k = "ok" /\ \A y \in 1..e.h : \A x \in 1..e.w : \A c \in 1..4 : e.arr[y][x][c] = e.steps[(y - 1) * e.w + x][c]
\* conv[y][x]: the library's pixel for the array's element
Import(e) ==
    IF e.type \notin Types \/ ~Importable(e.shape, OrDefault(e.space, "auto"))
    THEN e.k = "error" \/ (e.k = "ok" /\ e.type \in Types /\ e.w = 0 /\ e.h = 0 /\ 0 \in {e.shape[i] : i \in DOMAIN e.shape})
    ELSE IF e.shape[1] = 0 THEN (e.k = "ok" => e.w = 0 /\ e.h = 0) /\ e.k \in {"ok", "error"}
    ELSE /\ e.k = "ok" /\ e.same
         /\ e.reading = Reading(e.shape, OrDefault(e.space, "auto"))
         /\ e.w = e.shape[2] /\ e.h = e.shape[1] /\ Len(e.px) = e.w * e.h
         /\ \A y \in 1..e.h : \A x \in 1..e.w : \A c \in 1..4 :
               AbsN(e.px[(y - 1) * e.w + x][c] - e.conv[y][x][c]) <= 20
\* anything that is no array of numbers
Refuse(e) == e.k = "error"
\* arrays and images share nothing
Alias(e) == e.before = e.after
TripE(e) == /\ e.k = "ok" /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.px) = e.w * e.h /\ Len(e.back) = e.w * e.h
            /\ \A i \in DOMAIN e.px : Trip(e.space, e.type, e.px[i], e.gray[i], e.back[i])
Ok(e) == CASE e.op = "export" -> Export(e)
           [] e.op = "steps" -> Steps(e)
           [] e.op = "import" -> Import(e)
           [] e.op = "refuse" -> Refuse(e)
           [] e.op = "alias" -> Alias(e)
           [] e.op = "trip" -> TripE(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
