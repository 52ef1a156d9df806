-------------------------------- MODULE TrKernel --------------------------------
EXTENDS Kernel, Wide, Json, IOUtils, TLC
VARIABLES l, b            \* b: the image the following queries are about
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* pixels of b are tuples of four integer channels here
Chan(p, c) == p[c]
Fl == INSTANCE Filters
\* the Gaussian kernel: weights of the two distances from the middle, summing to one
GaussOk(e) ==
    LET o == e.n \div 2
        g == TLCEval([i \in 1..e.n |-> Fl!GaussW(AbsI(i - 1 - o), e.sg)])
        W == Sum(g)
        at(x, y) == Fl!MulP(Fl!DivP(g[x], W), Fl!DivP(g[y], W)) IN
    /\ Len(e.v) = e.n * e.n /\ AbsI(Sum(e.v) - Fl!P) <= 8 + e.n * e.n
    /\ \A x \in 1..e.n, y \in 1..e.n : AbsI(e.v[(y - 1) * e.n + x] - at(x, y)) <= 160
    /\ \A x \in 1..e.n, y \in 1..e.n : e.v[(y - 1) * e.n + x] = e.v[(x - 1) * e.n + y]
KernelOf(e) == [w |-> e.kw, h |-> e.kh, k |-> e.k]
Ok(e) ==
    CASE e.op = "win" -> e.ok /\ e.v = Window(b, e.n, e.x, e.y)
      [] e.op = "wide" -> e.ok /\ e.v = Window(WideBuf(e.w, e.h), e.n, e.x, e.y)
      [] e.op = "wconv" ->      \* the channels of label k are 16k, 16k + 1, 16k + 2, 16k + 3
            /\ e.ok /\ e.nw = e.w /\ e.nh = e.h
            /\ \A i \in DOMAIN e.at : LET a == e.at[i] IN \A c \in 1..4 :
                  a[3][c] = ConvAt(WideBuf(e.w, e.h), KernelOf(e), LAMBDA p, q : 16 * p + q - 1, c, a[1], a[2])
      [] e.op = "conv" ->
            /\ e.ok /\ e.w = b.w /\ e.h = b.h
            /\ \A c \in 1..4 : e.v[c] = Conv(b, KernelOf(e), Chan, c).px
      [] e.op = "at" -> e.ok /\ \A c \in 1..4 : e.v[c] = ConvAt(b, KernelOf(e), Chan, c, e.x, e.y)
      [] e.op = "apply" ->      \* a kernel applied to an explicit window
            /\ e.ok
            /\ \A c \in 1..4 : e.v[c] = Sum([i \in 1..Len(e.k) |-> e.k[i] * e.data[i][c]])
      [] e.op = "gauss" -> e.ok /\ GaussOk(e)
      [] e.op = "sobel" -> e.ok /\ e.sx = <<-1, 0, 1, -2, 0, 2, -1, 0, 1>> /\ e.sy = <<1, 2, 1, 0, 0, 0, -1, -2, -1>>
      [] e.op = "kget" ->       \* dynamic kernel accessors
            /\ e.ok
            /\ e.v = e.k[e.y * e.kw + e.x + 1]
            /\ e.offs = <<e.kw \div 2, e.kh \div 2>>
            /\ e.enum = [i \in 1..Len(e.k) |-> <<(i - 1) % e.kw, (i - 1) \div e.kw, e.k[i]>>]
TrInit == l = 1 /\ b = Buf(0, 0, <<>>)
TrNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN b' = Buf(0, 0, <<>>)
       ELSE IF e.op = "img" THEN b' = Buf(e.w, e.h, e.px)
       ELSE Ok(e) = TRUE /\ b' = b
TrSpec == TrInit /\ [][TrNext]_<<l, b>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
