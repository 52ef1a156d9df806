--------------------------------- MODULE TrWritten ---------------------------------
EXTENDS Written, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in DOMAIN s}
JpegOk(e, f) ==
    LET g == JpegForm(e) IN
    /\ f.soi /\ f.eoi /\ f.precision = 8 /\ f.w = e.w /\ f.h = e.h /\ f.frame = g.frame /\ f.comps = g.comps
    /\ f.tables[1] = g.luma /\ (e.grey \/ (Len(f.tables) = 2 /\ f.tables[2] = g.chroma))
    \* the standard codes, or as many as are in use
    /\ \A i \in DOMAIN f.codes : LET c == f.codes[i] IN
          IF g.standard THEN c[3] = (IF c[1] = 0 THEN 12 ELSE 162) ELSE c[1] = 1 => c[3] < 162
    /\ Len(f.codes) = 2 * (IF e.grey THEN 1 ELSE 2)
    /\ IF e.progressive THEN f.scans > Len(g.comps) ELSE f.scans \in {1, Len(g.comps)}
PngOk(e, f) ==
    LET g == PngForm(e)
        row == (e.w * Samples(g.color) * g.depth) \div 8 + 1 IN
    /\ f.sig /\ f.w = e.w /\ f.h = e.h /\ f.depth = g.depth /\ f.color = g.color /\ f.interlace = 0 /\ f.rest = 0
    /\ f.chunks = <<"IHDR", "IDAT", "IEND">> /\ f.rows = e.h /\ f.zlib = g.zlib
    \* what gets no smaller may be stored as it is
    /\ f.filters = <<g.filter>> \/ (e.compression = 1 /\ f.filters = <<0>> /\ f.size >= row * e.h)
BmpOk(e, f) == f.sig /\ f.file = f.len /\ f.w = e.w /\ f.h = e.h /\ f.bits = BmpForm(e).bits /\ f.method \in {0, 3}
IcoOk(e, f) == /\ f.type = 1 /\ f.count = 1 /\ f.bits = 32 /\ f.end = f.len /\ f.w = e.w % 256 /\ f.h = e.h % 256
               /\ f.png.sig /\ f.png.w = e.w /\ f.png.h = e.h /\ f.png.rows = e.h /\ f.png.color = 6 /\ f.png.depth = 8
GifOk(e, f) == f.sig \in {"GIF87a", "GIF89a"} /\ f.w = e.w /\ f.h = e.h /\ f.frames = << <<0, 0, e.w, e.h>> >> /\ f.rest = 0
WebPOk(e, f) ==
    LET g == WebPForm(e)  v == f.vp8 IN
    /\ f.sig /\ f.size = f.len
    /\ IF g.lossless THEN f.chunks = <<"VP8L">> /\ f.vp8l = <<47, e.w, e.h, IF e.clear THEN 1 ELSE 0>>
       ELSE /\ f.chunks = (IF e.clear THEN <<"VP8X", "ALPH", "VP8 ">> ELSE <<"VP8 ">>)
            /\ e.clear => f.canvas = <<e.w, e.h>>
            /\ v.key /\ v.w = e.w /\ v.h = e.h /\ v.sharp = g.sharp
            \* one macroblock has nothing to adapt to
            /\ IF ~g.adapts \/ (e.w <= 16 /\ e.h <= 16) THEN Range(v.quants) = {g.quant}
               ELSE (\E q \in Range(v.quants) : q <= g.quant + 1) /\ (\E q \in Range(v.quants) : q >= g.quant - 1)
            /\ ~g.smooths => v.level = 0
            /\ (e.preset = 0 /\ v.base >= 30) => v.level > 0
Ok(e) ==
    CASE e.op = "named" -> e.req = Request(e.name, e.q, e.preset) /\ e.kind = e.req.fmt
      [] e.op = "written" ->
            /\ e.ok /\ e.kind = e.fmt /\ e.again /\ e.alike /\ "broken" \notin DOMAIN e.file
            /\ CASE e.fmt = "jpeg" -> JpegOk(e, e.file) [] e.fmt = "png" -> PngOk(e, e.file) [] e.fmt = "bmp" -> BmpOk(e, e.file)
                 [] e.fmt = "ico" -> IcoOk(e, e.file) [] e.fmt = "gif" -> GifOk(e, e.file) [] e.fmt = "webp" -> WebPOk(e, e.file)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
