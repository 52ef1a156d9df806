---------------------------------- MODULE Img ----------------------------------
(* Pixel buffers as records [w, h, px]: px is the row-major sequence of pixels.  *)
EXTENDS Integers, Sequences, TLC

MaxSize == 1073741823        \* MAX_BUFFER_SIZE = i32::MAX / 2

\* both zero, or both positive and not more than MaxSize pixels (no overflow in TLC)
ValidSize(w, h) == \/ w = 0 /\ h = 0
                   \/ w > 0 /\ h > 0 /\ w <= MaxSize \div h

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
ClampI(lo, v, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
AbsI(a) == IF a < 0 THEN -a ELSE a

Idx(b, x, y) == y * b.w + x + 1                       \* 1-based row-major position
XOf(b, i) == (i - 1) % b.w
YOf(b, i) == (i - 1) \div b.w
In(b, x, y) == x >= 0 /\ y >= 0 /\ x < b.w /\ y < b.h
Px(b, x, y) == b.px[Idx(b, x, y)]
PxClamped(b, x, y) == Px(b, ClampI(0, x, b.w - 1), ClampI(0, y, b.h - 1))

\* the buffer of the given size whose pixel at (x, y) is F(x, y)
Gen(w, h, F(_, _)) == [w |-> w, h |-> h, px |-> [i \in 1..(w * h) |-> F((i - 1) % w, (i - 1) \div w)]]
Buf(w, h, px) == [w |-> w, h |-> h, px |-> px]
WellFormed(b) == ValidSize(b.w, b.h) /\ Len(b.px) = b.w * b.h
SameBuf(a, b) == a.w = b.w /\ a.h = b.h /\ a.px = b.px
================================================================================
