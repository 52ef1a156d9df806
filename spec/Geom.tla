----------------------------------- MODULE Geom -----------------------------------
(* Operations that move pixels (G01): the state is the current image; every action  *)
(* replaces it.  Positions are derived from the geometry, not from index arithmetic.*)
EXTENDS Img

FlipH(b) == Gen(b.w, b.h, LAMBDA x, y : Px(b, b.w - 1 - x, y))
FlipV(b) == Gen(b.w, b.h, LAMBDA x, y : Px(b, x, b.h - 1 - y))
\* a quarter turn clockwise: the left edge becomes the top edge
Rot90(b)  == Gen(b.h, b.w, LAMBDA x, y : Px(b, y, b.h - 1 - x))
Rot180(b) == Gen(b.w, b.h, LAMBDA x, y : Px(b, b.w - 1 - x, b.h - 1 - y))
Rot270(b) == Gen(b.h, b.w, LAMBDA x, y : Px(b, b.w - 1 - y, x))

\* intersection of the requested rectangle with the image (no overflow: all capped first)
Crop(b, ox, oy, cw, ch) ==
    LET x0 == Min2(ox, b.w)
        y0 == Min2(oy, b.h)
        nw == Min2(cw, b.w - x0)
        nh == Min2(ch, b.h - y0) IN
    IF nw = 0 \/ nh = 0 THEN Buf(0, 0, <<>>)
    ELSE Gen(nw, nh, LAMBDA x, y : Px(b, x0 + x, y0 + y))

\* even rows move right, odd rows left; shifting by the width or more repeats the edge pixel
Interlace(b, off) ==
    LET o == Min2(off, b.w) IN
    Gen(b.w, b.h, LAMBDA x, y : PxClamped(b, IF y % 2 = 0 THEN x - o ELSE x + o, y))

\* numbers from 2^31 on are written as the negative ones of the same 32 bits
U32(v) == IF v < 0 THEN 2147483647 ELSE v
Apply(b, c) ==
    CASE c.op = "fh"        -> FlipH(b)
      [] c.op = "fv"        -> FlipV(b)
      [] c.op = "r90"       -> Rot90(b)
      [] c.op = "r180"      -> Rot180(b)
      [] c.op = "r270"      -> Rot270(b)
      [] c.op = "crop"      -> Crop(b, U32(c.x), U32(c.y), U32(c.cw), U32(c.ch))
      [] c.op = "interlace" -> Interlace(b, U32(c.o))
================================================================================
