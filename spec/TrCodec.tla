--------------------------------- MODULE TrCodec ---------------------------------
EXTENDS Codec, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prev(e, g) == IF g = 1 THEN e.px ELSE e.gen[g - 1].px
PrevFmt(e, g) == e.fmts[g - 1]
Trip(e) ==
    /\ e.err = "" /\ Len(e.gen) = Len(e.fmts)
    /\ \A g \in DOMAIN e.gen :
          LET d == e.gen[g] IN
          /\ d.w = e.w /\ d.h = e.h /\ Len(d.px) = Len(e.px)
          /\ \A i \in DOMAIN d.px :
                /\ Kept(e.fmts[g], Prev(e, g)[i], d.px[i]) = TRUE
                \* hidden colours of transparent WebP pixels apart, nothing gets lost any more
                /\ (g > 1 => ((Contained(PrevFmt(e, g), e.fmts[g]) /\ ~(e.fmts[g] = "webp" /\ d.px[i][4] <= Noise))
                                => SameStored(Prev(e, g)[i], d.px[i]))) = TRUE
\* a picture of hundreds of thousands of pixels, of which some are looked at; saved again, none of them changes
LargeOk(e) ==
    /\ e.err = "" /\ e.nw = e.w /\ e.nh = e.h /\ Len(e.got) = Len(e.px)
    /\ \A k \in DOMAIN e.px : Kept(e.fmt, e.px[k], e.got[k]) = TRUE
    /\ e.changed = 0
Opaque(d) == AbsI(d[4] - U) <= Noise
Clear(d) == d[4] <= Noise
Grey(d) == \A i \in 1..3 : AbsI(d[i] - d[1]) <= Noise
Alpha(fmt, want, got) == IF fmt = "gif" THEN (Opaque(got) \/ Clear(got)) /\ (want = U => Opaque(got)) /\ (want = 0 => Clear(got))
                         ELSE Opaque(got)
FlatBound(e) == CASE e.fmt = "jpeg" -> JpegFlat(e.q) [] e.fmt = "jpeg_grey" -> JpegGreyFlat(e.q)
                  [] e.fmt = "webp" -> WebPFlat(e.q) [] e.fmt = "gif" -> 100
WantedOf(fmt, c, i) == IF fmt = "jpeg_grey" THEN c[5] ELSE c[i]
SameSize(e) == e.err = "" /\ e.nw = e.w /\ e.nh = e.h
Flat(e) == SameSize(e) /\ e.got # <<>> /\ \A k \in DOMAIN e.got :
    LET d == e.got[k] IN
    /\ Alpha(e.fmt, e.c[4], d) = TRUE
    /\ (e.fmt = "jpeg_grey" => Grey(d))
    /\ \A i \in 1..3 : OnStep(d[i], Level) /\ (Clear(d) \/ Off(d[i], WantedOf(e.fmt, e.c, i), FlatBound(e)))
RampOf(e) == IF e.fmt = "jpeg" THEN Ramp(e.fmt, e.options.sampling) ELSE Ramp(e.fmt, 0)
RampOk(e) == SameSize(e) /\ Len(e.got) = Len(e.px) /\ \A k \in DOMAIN e.got :
    LET d == e.got[k] IN
    /\ Len(d) = 5 /\ Opaque(d) /\ (e.fmt = "jpeg_grey" => Grey(d))
    /\ \A i \in 1..3 : OnStep(d[i], Level) /\ Off(d[i], WantedOf(e.fmt, e.px[k], i), RampOf(e))
GifOk(e) == SameSize(e) /\ Len(e.got) = Len(e.px) /\ \A k \in DOMAIN e.got :
    LET d == e.got[k] IN
    /\ Alpha("gif", e.px[k][4], d) = TRUE
    /\ Clear(d) \/ \A i \in 1..3 : AbsI(d[i] - e.px[k][i]) <= 2 * Noise
Limit(e) == IF Encodable(e.format, e.w, e.h) THEN e.ok /\ e.nw = e.w /\ e.nh = e.h ELSE ~e.ok /\ ~e.panic
Ok(e) ==
    CASE e.op = "trip" -> Trip(e)
      [] e.op = "large" -> LargeOk(e)
      [] e.op = "flat" -> Flat(e)
      [] e.op = "ramp" -> RampOk(e)
      [] e.op = "gif" -> GifOk(e)
      [] e.op = "limit" -> Limit(e)
      [] e.op = "nearest_quality" -> e.ok
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
