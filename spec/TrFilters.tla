---------------------------------- MODULE TrFilters ----------------------------------
EXTENDS Filters, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Src(e) == Buf(e.w, e.h, e.px)
All(e, At(_, _, _)) ==
    /\ e.rw = e.w /\ e.rh = e.h /\ Len(e.v) = e.w * e.h
    /\ \A x \in 0..(e.w - 1), y \in 0..(e.h - 1) : At(x, y, e.v[y * e.w + x + 1])
Near4(r, q, t) == \A c \in 1..4 : Close(r[c], q[c], t)
Ok(e) ==
    /\ e.ok
    /\ CASE e.op = "despeckle" -> All(e, LAMBDA x, y, r : Near4(r, DespeckleAt(Src(e), e.thr, e.amount, x, y), 1))
         [] e.op = "snn" -> All(e, LAMBDA x, y, r : Near4(r, SnnAt(Src(e), e.radius, e.center, x, y), 1))
         [] e.op = "sobel" -> All(e, LAMBDA x, y, r : r[4] = S /\ \A c \in 1..3 : IsRoot(r[c], SobelSq(Src(e), x, y, c), 1))
         [] e.op = "laplace" -> All(e, LAMBDA x, y, r : r[4] = S /\ \A c \in 1..3 : r[c] = 64 * Laplace(Src(e), x, y, c))
         [] e.op = "blur" -> All(e, LAMBDA x, y, r : Near4(r, [c \in 1..4 |-> BlurAt(Src(e), e.radius, e.sg, x, y, c)], 8))
         [] e.op = "unsharp" -> All(e, LAMBDA x, y, r :
                Near4(r, [c \in 1..4 |-> UnsharpAt(Src(e), e.radius, e.sg, e.f16, x, y, c)], 8 + AbsI(e.f16) \div 2))
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
======================================================================================
