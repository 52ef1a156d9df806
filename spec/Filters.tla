----------------------------------- MODULE Filters -----------------------------------
(* Neighbourhood filters (F01, F02).  Input pixels: 4 integers in 1/256 (F01) or      *)
(* scaled by S (F02); results scaled by S.                                            *)
EXTENDS Real

\* ---- despeckle: threshold thr in 1/256 -------------------------------------------
Dark(p, thr) == p[1] + p[2] + p[3] < 3 * thr          \* average below the threshold
Around(b, x, y) == [i \in 1..9 |-> PxClamped(b, x - 1 + ((i - 1) % 3), y - 1 + ((i - 1) \div 3))]
DespeckleAt(b, thr, amount, x, y) ==
    LET c == Px(b, x, y)
        n == Around(b, x, y)
        bright == SelectSeq(n, LAMBDA p : ~Dark(p, thr))
        Avg(ch) == DivR(64 * SeqSum([i \in 1..Len(bright) |-> bright[i][ch]]), Len(bright)) IN
    IF Dark(c, thr) /\ 9 - Len(bright) <= amount /\ Len(bright) > 0
    THEN <<Avg(1), Avg(2), Avg(3), 64 * c[4]>>
    ELSE [i \in 1..4 |-> 64 * c[i]]

\* ---- symmetric nearest neighbour ---------------------------------------------------
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
Pairs == <<<<-1, -1>>, <<0, -1>>, <<1, -1>>, <<-1, 0>>>>     \* and the opposite ones
SnnPick(b, x, y, r, i) ==
    LET c == Px(b, x, y)
        p == PxClamped(b, x + r * Pairs[i][1], y + r * Pairs[i][2])
        q == PxClamped(b, x - r * Pairs[i][1], y - r * Pairs[i][2]) IN
    IF Dist2(p, c) < Dist2(q, c) THEN p ELSE q
SnnAt(b, radius, center, x, y) ==
    LET c == Px(b, x, y)
        picks == [k \in 1..(4 * radius) |-> SnnPick(b, x, y, 1 + ((k - 1) \div 4), 1 + ((k - 1) % 4))]
        all == IF center THEN Append(picks, c) ELSE picks IN
    [ch \in 1..4 |-> IF Len(all) = 0 THEN 64 * c[ch] ELSE DivR(64 * SeqSum([k \in 1..Len(all) |-> all[k][ch]]), Len(all))]

\* ---- edges ---------------------------------------------------------------------------
Grad(b, x, y, ch, sx) ==
    LET V(dx, dy) == PxClamped(b, x + dx, y + dy)[ch] IN
    IF sx THEN V(-1, -1) + 2 * V(-1, 0) + V(-1, 1) - V(1, -1) - 2 * V(1, 0) - V(1, 1)
    ELSE V(-1, -1) + 2 * V(0, -1) + V(1, -1) - V(-1, 1) - 2 * V(0, 1) - V(1, 1)
SobelSq(b, x, y, ch) == LET g == Grad(b, x, y, ch, TRUE)  h == Grad(b, x, y, ch, FALSE) IN g * g + h * h
\* r (scaled by S) is the clamped root of q (in 1/65536)
IsRoot(r, q, tol) ==
    IF q >= 65536 THEN Close(r, S, tol)
    ELSE r >= 0 /\ r <= S /\ Max2(0, r - tol) * Max2(0, r - tol) <= 4096 * q /\ 4096 * q <= (r + tol) * (r + tol)
Laplace(b, x, y, ch) == SeqSum([i \in 1..9 |-> Around(b, x, y)[i][ch]]) - 9 * Px(b, x, y)[ch]

\* ---- Gaussian ------------------------------------------------------------------------
\* weight at distance d for sigma = sg/16 (sg = 0: only the pixel itself)
GaussW(d, sg) ==
    IF d = 0 THEN S
    ELSE IF sg = 0 \/ (d * d * 128) \div (sg * sg) >= 12 THEN 0
    ELSE LET n == d * d * 128 IN
         (ExpNeg((n \div (sg * sg)) * P + DivP(n % (sg * sg), sg * sg)) + 32) \div 64
DefaultSigma(r) == 8 * r                                     \* radius / 2 in 1/16
GaussWeights(r, sg) == [i \in 1..(2 * r + 1) |-> GaussW(AbsI(i - 1 - r), sg)]
\* separable: weights of columns and rows, each normalised
Weighted1(w, r, V(_)) ==              \* exact quotient in two halves, values 0..S
    LET tot == SeqSum(w)
        hi == SeqSum([i \in 1..Len(w) |-> w[i] * (V(i - 1 - r) \div 128)])
        lo == SeqSum([i \in 1..Len(w) |-> w[i] * (V(i - 1 - r) % 128)]) IN
    (hi \div tot) * 128 + ((hi % tot) * 128 + lo + tot \div 2) \div tot
BlurAt(b, r, sg, x, y, ch) ==
    LET w == GaussWeights(r, sg)
        Row(dy) == Weighted1(w, r, LAMBDA dx : PxClamped(b, x + dx, y + dy)[ch]) IN
    Weighted1(w, r, Row)
UnsharpAt(b, r, sg, f16, x, y, ch) ==                      \* factor f16/16
    LET v == Px(b, x, y)[ch] IN
    Clamp01(v + ((v - BlurAt(b, r, sg, x, y, ch)) * f16) \div 16)
======================================================================================
