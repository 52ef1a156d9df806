---------------------------------- MODULE Codec ----------------------------------
(* What image files hold.  A pixel is <<r, g, b, a, l>>: its sRGB channels, its alpha and   *)
(* the sRGB value of its luma, scaled by U: 64 units are one step of 16 bits and 16448      *)
(* units one of 8 bits.                                                                     *)
EXTENDS Img
U == 4194240
Noise == 8                \* single precision gamma conversion

L(b, g, a) == [bits |-> b, grey |-> g, alpha |-> a]
Lossless ==
  [png_l8 |-> L(8, TRUE, FALSE), png_la8 |-> L(8, TRUE, TRUE), png_l16 |-> L(16, TRUE, FALSE), png_la16 |-> L(16, TRUE, TRUE),
   png_rgb8 |-> L(8, FALSE, FALSE), png_rgba8 |-> L(8, FALSE, TRUE), png_rgb16 |-> L(16, FALSE, FALSE), png_rgba16 |-> L(16, FALSE, TRUE),
   \* BMP has no grey format with alpha
   bmp_l8 |-> L(8, TRUE, FALSE), bmp_la8 |-> L(8, TRUE, FALSE), bmp_rgb8 |-> L(8, FALSE, FALSE), bmp_rgba8 |-> L(8, FALSE, TRUE),
   ico_l8 |-> L(8, TRUE, FALSE), ico_la8 |-> L(8, TRUE, TRUE), ico_rgb8 |-> L(8, FALSE, FALSE), ico_rgba8 |-> L(8, FALSE, TRUE),
   webp |-> L(8, FALSE, TRUE)]
StepOf(bits) == IF bits = 8 THEN 16448 ELSE 64

\* v is one of the stored values nearest to s (0 <= s <= U)
OnStep(v, st) == LET r == v % st IN v >= -Noise /\ v <= U + Noise /\ (r <= Noise \/ st - r <= Noise)
Nearest(v, s, st) == OnStep(v, st) /\ AbsI(v - s) <= st \div 2 + Noise
\* what the file holds of a pixel
Wanted(f, c, i) == IF f.grey THEN c[5] ELSE c[i]
Kept(fmt, c, d) ==
    LET f == Lossless[fmt]
        st == StepOf(f.bits)
        hidden == fmt = "webp" /\ d[4] <= Noise IN
    /\ \A i \in 1..3 : OnStep(d[i], st) /\ (hidden \/ Nearest(d[i], Wanted(f, c, i), st))
    /\ f.grey => \A i \in 1..3 : AbsI(d[i] - d[1]) <= Noise
    /\ IF f.alpha THEN Nearest(d[4], c[4], st) ELSE AbsI(d[4] - U) <= Noise

\* a finer or equal format holds everything a coarser one does
Contained(a, b) == LET x == Lossless[a]  y == Lossless[b] IN
    x.bits <= y.bits /\ (x.grey \/ ~y.grey) /\ (~x.alpha \/ y.alpha)
SameStored(c, d) == \A i \in 1..4 : AbsI(c[i] - d[i]) <= 2 * Noise

--------------------------------------------------------------------------------
\* lossy formats
Level == 16448
\* the quantisation step of a flat block in a JPEG file of quality q (base 16 for luma, 17 for chroma)
Quality(q) == ClampI(1, q, 100)
DcStep(base, q) == LET k == Quality(q)
                       s == IF k < 50 THEN 5000 \div k ELSE 200 - 2 * k IN
                   ClampI(1, (base * s + 50) \div 100, 255)
\* how far a channel of a flat colour may be off, in hundredths of a level: luma and chroma are rounded to
\* a multiple of step/8 (the encoder divides by multiplying with a rounded
\* reciprocal, which moves the decision by up to a sixth of a step), blue sees 1.772 times the chroma error; conversion to 8 bits: 3 levels
JpegFlat(q) == (DcStep(16, q) * 100) \div 12 + (DcStep(17, q) * 178) \div 12 + 300
JpegGreyFlat(q) == (DcStep(16, q) * 100) \div 12 + 200
\* measured on the real library, with a margin of about one half
WebPFlat(q) == 1200 + (100 - ClampI(0, q, 100)) * 25
Fold == {4, 5, 6, 7, 10, 13, 14, 15}   \* sampling factors which join four columns or rows of chroma
Ramp(fmt, sampling) == CASE fmt = "jpeg_grey" -> 600 [] fmt = "webp" -> 2600
                         [] sampling \in {0, 8} -> 1200 [] sampling \in Fold -> 6400 [] OTHER -> 2400
Off(v, s, hundredths) == AbsI(v - s) \div 64 <= (hundredths * Level) \div 6400
\* the largest size of a side
MaxSide(format) == CASE format = "jpeg" -> 65535 [] format = "gif" -> 65535 [] format = "webp" -> 16383 [] format = "ico" -> 256
                     [] OTHER -> MaxSize
Encodable(format, w, h) == ValidSize(w, h) /\ w > 0 /\ w <= MaxSide(format) /\ h <= MaxSide(format)
================================================================================
