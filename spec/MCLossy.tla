--------------------------------- MODULE MCLossy ---------------------------------
(* The way of a flat colour through a JPEG file of every quality, and requests for images   *)
(* at the limits of every format.                                                           *)
EXTENDS Codec, Json
CONSTANTS Qs, Steps
VARIABLES s
AllQ == 1..100
Formats == {"jpeg", "png", "gif", "bmp", "ico", "webp"}
Lim(f) == {0, 1, 2} \union (IF MaxSide(f) < 100000 THEN {MaxSide(f) - 1, MaxSide(f), MaxSide(f) + 1} ELSE {300, 40000, 70000})
Small == {0, 1, 2}
Levels == {(k * 255) \div Steps : k \in 0..Steps}
Size == [kind : {"limit"}, format : Formats, w : Small, h : Small]
\* rounding division
Div(a, n) == IF a >= 0 THEN (2 * a + n) \div (2 * n) ELSE -((2 * (-a) + n) \div (2 * n))
Y(r, g, b) == Div(299 * r + 587 * g + 114 * b, 1000)
Cb(r, g, b) == Div(-168736 * r - 331264 * g + 500000 * b, 1000000)
Cr(r, g, b) == Div(500000 * r - 418688 * g - 81312 * b, 1000000)
\* a flat block: the coefficient is 8 times the value (less 128 for luma)
\* the encoder's quantiser: all scaled by 8
Shift == 32768
Recip(d) == LET r == Shift \div d  f == Shift % d IN IF f # 0 /\ f > d \div 2 THEN r + 1 ELSE r
Corr(d) == LET f == Shift % d IN IF f # 0 /\ f <= d \div 2 THEN d \div 2 + 1 ELSE d \div 2
Quantise(v, d) == LET m == ((AbsI(v) + Corr(d)) * Recip(d)) \div Shift IN IF v < 0 THEN -m ELSE m
Quant(v, step) == Div(Quantise(64 * v, 8 * step) * step, 8)
Jpeg(r, g, b, q) ==
    LET y == Quant(Y(r, g, b) - 128, DcStep(16, q)) + 128
        cb == Quant(Cb(r, g, b), DcStep(17, q))
        cr == Quant(Cr(r, g, b), DcStep(17, q)) IN
    << ClampI(0, y + Div(1402 * cr, 1000), 255), ClampI(0, y - Div(344136 * cb + 714136 * cr, 1000000), 255),
       ClampI(0, y + Div(1772 * cb, 1000), 255) >>
Init == \/ \E f \in Formats : \E a \in Lim(f), b \in Small \union (IF f = "ico" THEN Lim(f) ELSE {}), t \in BOOLEAN :
              s = [kind |-> "limit", format |-> f, w |-> IF t THEN b ELSE a, h |-> IF t THEN a ELSE b]
        \/ \E r, g, b \in Levels : s = [kind |-> "flat", c |-> <<r, g, b>>, q |-> 0]
Next == s.kind = "flat" /\ s.q = 0 /\ \E q \in Qs : s' = [s EXCEPT !.q = q]
Spec == Init /\ [][Next]_s
FlatI == (s.kind = "flat" /\ s.q # 0) =>
    LET j == Jpeg(s.c[1], s.c[2], s.c[3], s.q) IN
    /\ \A i \in 1..3 : AbsI(j[i] - s.c[i]) * 100 <= JpegFlat(s.q)
    /\ AbsI(Quant(s.c[1] - 128, DcStep(16, s.q)) + 128 - s.c[1]) * 100 <= JpegGreyFlat(s.q)
\* better quality never allows more
ASSUME \A q \in 0..300 : /\ JpegFlat(q + 1) <= JpegFlat(q) /\ WebPFlat(q + 1) <= WebPFlat(q)
                         /\ Quality(Quality(q)) = Quality(q) /\ DcStep(16, q) = DcStep(16, Quality(q))
\* what fits, fits when it is smaller as well
LimitI == s.kind = "limit" =>
    /\ (s.w > 1 /\ s.h > 0 /\ Encodable(s.format, s.w, s.h)) => Encodable(s.format, s.w - 1, s.h)
    /\ Encodable(s.format, s.w, s.h) = Encodable(s.format, s.h, s.w)
    /\ s.w = 0 => ~Encodable(s.format, s.w, s.h)
Emit == (s.kind = "limit" /\ ValidSize(s.w, s.h)) => PrintT(ToJson([format |-> s.format, w |-> s.w, h |-> s.h]))
================================================================================
