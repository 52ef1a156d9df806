---------------------------------- MODULE MCFilters ----------------------------------
(* Laws on every small image; every image is a case for the real code.                *)
EXTENDS Filters, Json
CONSTANTS MaxW, MaxH, Vals
VARIABLE c
Init == c \in UNION {[w : {w}, h : {h}, v : [1..(w * h) -> Vals]] : w \in 1..MaxW, h \in 1..MaxH}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
B == Gen(c.w, c.h, LAMBDA x, y : LET v == c.v[y * c.w + x + 1] IN <<v, 256 - v, v \div 2, 256>>)
Pts == (0..(c.w - 1)) \X (0..(c.h - 1))
Same(p, q) == \A i \in 1..4 : p[i] = 64 * q[i]
Flat == \A i \in 1..Len(c.v) : c.v[i] = c.v[1]
\* despeckling: nothing darker than before; amount 0 and threshold 0 change nothing; only dark pixels change
Despeckle == \A p \in Pts :
    /\ \A thr \in {0, 100, 200, 300}, am \in {0, 1, 4, 9} :
        LET r == DespeckleAt(B, thr, am, p[1], p[2])
            o == Px(B, p[1], p[2]) IN
        /\ r[4] = 64 * o[4]
        /\ (thr = 0 \/ am = 0 \/ ~Dark(o, thr)) => Same(r, o)
        /\ ~Same(r, o) => r[1] + r[2] + r[3] >= 3 * 64 * thr - 3
\* the symmetric filter keeps flat areas and stays within the neighbourhood's range
Snn == \A p \in Pts, r \in 0..2 : \A ct \in {TRUE, FALSE} :
    LET v == SnnAt(B, r, ct, p[1], p[2])
        o == Px(B, p[1], p[2]) IN
    /\ (Flat \/ r = 0) => Same(v, o)
    /\ InUnit(v[1]) /\ v[4] = S
Edges == \A p \in Pts :
    /\ Flat => SobelSq(B, p[1], p[2], 1) = 0 /\ Laplace(B, p[1], p[2], 1) = 0
    /\ SobelSq(B, p[1], p[2], 1) = SobelSq(B, p[1], p[2], 2)     \* inverting keeps the magnitude
    /\ Laplace(B, p[1], p[2], 1) = -Laplace(B, p[1], p[2], 2)
\* blurring: a mean
BS == Gen(c.w, c.h, LAMBDA x, y : LET v == c.v[y * c.w + x + 1] * 64 IN <<v, S - v, S, S>>)
Blur == \A p \in Pts, r \in 0..3, sg \in {0, 4, 16, 40} :
    LET v == BlurAt(BS, r, sg, p[1], p[2], 1) IN
    /\ v >= 0 /\ v <= S
    /\ Close(BlurAt(BS, r, sg, p[1], p[2], 2), S - v, 1)
    /\ BlurAt(BS, r, sg, p[1], p[2], 3) = S
    /\ (Flat \/ r = 0 \/ sg = 0) => v = Px(BS, p[1], p[2])[1]
Weights == \A r \in 0..5, sg \in {0, 1, 8, 16, 50} :
    LET w == GaussWeights(r, sg) IN
    \A i \in 1..(2 * r + 1) : w[i] = w[2 * r + 2 - i] /\ (i <= r => w[i] <= w[i + 1])
Emit == PrintT(ToJson(c))
======================================================================================
