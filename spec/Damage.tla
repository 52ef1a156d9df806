---------------------------------- MODULE Damage ----------------------------------
(* Damaged files and what may come of them.  A file is a sequence of segments: a header, the *)
(* image data in one or more segments, an end.                                               *)
EXTENDS Img
\* an image made of channels: hundred-thousandths
One == 100000
WellFormedImage(w, h, n, lo, hi, bad) ==
    /\ ValidSize(w, h) /\ n = w * h
    /\ lo >= 0 /\ hi <= One /\ bad = 0
\* these formats notice every missing byte of image data
Strict == {"png", "webp_lossless"}
\* a change of a byte that a checksum of the format guards is noticed
GuardedChange(res) == res = "error"
\* a whole file that holds no picture is not one
Hollow(res) == res = "error"
\* kept: bytes that are left; the image data ends behind byte `complete`
MustFail(fmt, kept, complete) == fmt \in Strict /\ kept < complete
================================================================================
