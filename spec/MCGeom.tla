---------------------------------- MODULE MCGeom ----------------------------------
EXTENDS Geom, Json, FiniteSets
CONSTANTS MaxW, MaxH, Depth
VARIABLES b, hist, start

Labelled(w, h) == Gen(w, h, LAMBDA x, y : 1 + x + 10 * y)
Init == \E w \in 0..MaxW, h \in 0..MaxH :
            /\ (w = 0) = (h = 0)
            /\ b = Labelled(w, h)
            /\ start = b
            /\ hist = <<[op |-> "img", w |-> w, h |-> h, px |-> Labelled(w, h).px]>>
Ops == {[op |-> k] : k \in {"fh", "fv", "r90", "r180", "r270"}}
       \cup {[op |-> "interlace", o |-> o] : o \in {0, 1, 2, 5, 2147483647}}
       \cup {[op |-> "crop", x |-> x, y |-> y, cw |-> cw, ch |-> ch] :
               x \in {0, 1, b.w}, y \in {0, 1, b.h + 1}, cw \in {0, 1, b.w, 2147483647}, ch \in {1, b.h, 2147483647}}
Next == /\ Len(hist) <= Depth
        /\ \E c \in Ops : b' = Apply(b, c) /\ hist' = Append(hist, c)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_<<b, hist, start>>

WF == WellFormed(b)
Range(s) == {s[i] : i \in 1..Len(s)}
\* no operation invents pixels
NothingNew == Range(b.px) \subseteq Range(start.px)
\* group laws of the square
Laws ==
    /\ FlipH(FlipH(b)) = b /\ FlipV(FlipV(b)) = b
    /\ Rot90(Rot90(b)) = Rot180(b) /\ Rot90(Rot180(b)) = Rot270(b) /\ Rot90(Rot270(b)) = b
    /\ FlipH(FlipV(b)) = Rot180(b)
    /\ FlipH(Rot90(FlipH(b))) = Rot270(b)
    /\ Interlace(b, 0) = b
    /\ Crop(b, 0, 0, b.w, b.h) = b
\* turning clockwise moves the top left corner to the top right
Orientation == b.w > 0 => LET r == Rot90(b) IN
    /\ r.w = b.h /\ r.h = b.w
    /\ Px(r, r.w - 1, 0) = Px(b, 0, 0)
    /\ Px(r, 0, 0) = Px(b, 0, b.h - 1)
\* moving operations are permutations: as many pixels, same labels
Permutation == Len(hist) > 1 /\ hist[Len(hist)].op \in {"fh", "fv", "r90", "r180", "r270"} =>
    Len(b.px) = b.w * b.h
\* crops commute with each other: cropping twice is one crop
CropCrop == \A x \in 0..1, y \in 0..1 :
    Crop(Crop(b, x, y, 2, 2), 1, 1, 5, 5) = Crop(b, x + 1, y + 1, 1, 1)
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
================================================================================
