--------------------------------- MODULE MCForeign ---------------------------------
(* Every kind of file; every sample value of the small depths.                               *)
EXTENDS Foreign, Json
VARIABLES k
Kinds == [kind : {"png"}, ctype : {0, 2, 3, 4, 6}, bits : {1, 2, 4, 8, 16}, trns : BOOLEAN, interlace : BOOLEAN, parts : {1, 3}]
         \union [kind : {"bmp"}, bits : {1, 4, 8, 16, 24, 32}, topdown : BOOLEAN]
         \union [kind : {"gif"}, bits : {1, 2, 4, 8}, interlace : BOOLEAN, local : BOOLEAN, trns : BOOLEAN, frames : {1, 3}]
         \union [kind : {"ico"}, bits : {1, 4, 8, 24, 32}]
         \union [kind : {"cmyk"}, sampling : {0, 1}]
         \union [kind : {"ljpeg"}, bits : {8, 16}, comps : {1, 3}, predictor : 1..7]
Legal(x) == /\ x.kind = "ljpeg" => (x.bits = 16 => x.comps = 1)
            /\ x.kind = "png" => (<<x.ctype, x.bits>> \in ValidPng /\ (x.trns => x.ctype \in {0, 2, 3}))
Init == k \in {x \in Kinds : Legal(x)}
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
InRange(p) == \A i \in 1..4 : p[i] \in 0..U
Values(bits) == IF bits <= 8 THEN 0..Max(bits) ELSE {0, 1, 255, 256, 32767, 32768, 65534, 65535}
\* full scale is full scale, nothing is 0, more is more
ScaleI == \A bits \in {1, 2, 4, 5, 6, 8, 16} : Scale(0, bits) = 0 /\ Scale(Max(bits), bits) = U /\ \A v \in Values(bits) \ {0} : Scale(v, bits) > Scale(v - 1, bits)
PngI == (k.kind = "png" /\ k.ctype # 3) => \A v \in Values(k.bits) :
           LET s == [i \in 1..Channels(k.ctype) |-> v]
               p == PngPixel(k.ctype, k.bits, s, <<>>, IF k.trns THEN s ELSE <<>>) IN
           InRange(p) /\ (k.trns => p[4] = 0) /\ p[1] = p[2] /\ (\* as a finer file of the same value
             k.bits = 8 => p = PngPixel(k.ctype, 16, [i \in DOMAIN s |-> 257 * v], <<>>, IF k.trns THEN [i \in DOMAIN s |-> 257 * v] ELSE <<>>))
LosslessI == k.kind = "ljpeg" => \A v \in Values(k.bits) :
               LET p == LosslessPixel(k.bits, [i \in 1..k.comps |-> v]) IN InRange(p) /\ p[1] = p[3] /\ p = PngPixel(0, k.bits, <<v>>, <<>>, <<>>)
CmykI == CmykPixel(<<0, 0, 0, 0>>) = <<U, U, U, U>> /\ CmykPixel(<<9, 0, 255, 255>>) = <<0, 0, 0, U>> /\ CmykPixel(<<255, 0, 0, 0>>) = <<0, U, U, U>>
Emit == PrintT(ToJson(k))
================================================================================
