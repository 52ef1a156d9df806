--------------------------------- MODULE TrResample ---------------------------------
EXTENDS Resample, FiniteSets, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol(f) == IF f.k = "lanczos3" THEN 24 ELSE 8
Close4(a, b, t) == \A c \in 1..4 : Close(a[c], b[c], t)
Src(e) == Buf(e.w, e.h, e.px)

ResizedOk(e, nw, nh) ==
    /\ e.rw = nw /\ e.rh = nh /\ Len(e.v) = nw * nh
    /\ IF nw = e.w /\ nh = e.h THEN e.v = e.px
       ELSE LET f == Filter(e.f, e.w, e.h, nw, nh) IN
            \A x \in 0..(nw - 1), y \in 0..(nh - 1) :
                LET r == e.v[y * nw + x + 1] IN
                IF f.k = "nearest"
                THEN \E i \in NearestIdx(x, e.w, nw), j \in NearestIdx(y, e.h, nh) : r = Px(Src(e), i, j)
                ELSE Close4(r, Sample(Src(e), f, ResizePos(x, e.w, nw), ResizePos(y, e.h, nh)), Tol(f))
\* ---- rotation
Turned(e, x, y) ==
    LET r == e.v[y * e.w + x + 1]
        p == RotPos(x, y, e.w, e.h, e.q)
        f == RotFilter(e.f)
        rs == {<<i, j>> : i \in RoundSet(p.x), j \in RoundSet(p.y)}
        inside == {q \in rs : In(Src(e), q[1], q[2])} IN
    \/ inside # rs /\ r = e.bg
    \/ /\ inside # {}
       /\ IF f.k = "nearest" THEN \E q \in inside : r = Px(Src(e), q[1], q[2])
          ELSE Close4(r, Sample(Src(e), f, AxisPos(p.x), AxisPos(p.y)), Tol(f) + 4)
RotatedOk(e) ==
    /\ e.rw = e.w /\ e.rh = e.h /\ Len(e.v) = e.w * e.h
    /\ e.q \in {0, 360 * 64} => \A i \in 1..Len(e.v) : Close4(e.v[i], e.px[i], 1)
    /\ \A x \in 0..(e.w - 1), y \in 0..(e.h - 1) : Turned(e, x, y)
\* ---- R02: values scaled by 2^24 here
F == 16777216
TolF == 300                          \* 1.8e-5, below the 1/32768 that distinguishes colours
Flat(r, sup, tol) == Cardinality(sup) = 1 => \A p \in sup : Close4(r, p, tol)
FlatOk(e) ==
    LET b == Src(e)
        nw == e.rw
        f == IF e.k = "rotate" THEN RotFilter(e.f) ELSE Filter(e.f, e.w, e.h, e.rw, e.rh)
        allOpaque == \A i \in 1..Len(e.px) : e.px[i][4] = F IN
    /\ Len(e.v) = e.rw * e.rh
    /\ \A i \in 1..Len(e.v) : \A c \in 1..4 : e.v[i][c] >= 0 /\ e.v[i][c] <= F
    /\ (allOpaque /\ (e.k = "rotate" => e.bg[4] = F)) => \A i \in 1..Len(e.v) : Close(e.v[i][4], F, TolF)
    /\ \A x \in 0..(e.rw - 1), y \in 0..(e.rh - 1) :
          LET r == e.v[y * e.rw + x + 1] IN
          IF e.k = "resize"
          THEN Flat(r, IF f.k = "nearest" THEN {Px(b, i, j) : i \in NearestIdx(x, e.w, e.rw), j \in NearestIdx(y, e.h, e.rh)}
                       ELSE Support(b, f, ResizePos(x, e.w, e.rw).b, ResizePos(y, e.h, e.rh).b), TolF)
          ELSE LET p == RotPos(x, y, e.w, e.h, e.q)
                   s == Support(b, f, p.x \div P, p.y \div P) IN
               Cardinality(s) = 1 => Close4(r, e.bg, 0) \/ \A q \in s : Close4(r, q, TolF)
Ok(e) ==
    /\ e.ok
    /\ CASE e.op = "resize" -> ResizedOk(e, e.nw, e.nh)
         [] e.op = "pct" -> /\ e.rw \in Scaled(e.w, e.p8) /\ e.rh \in Scaled(e.h, e.p8)
                            /\ ResizedOk(e, e.rw, e.rh)
         [] e.op = "rotate" -> RotatedOk(e)
         [] e.op = "flat" -> FlatOk(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==================================================================================
