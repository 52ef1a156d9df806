--------------------------------- MODULE Foreign ---------------------------------
(* Which picture a file of another program describes: from its raw samples to sRGB channels  *)
(* (in units of Codec: U is full scale).                                                     *)
EXTENDS Codec
Max(bits) == 2^bits - 1
\* v of bits bits as a fraction of U (exact for 1, 2, 4, 8 and 16 bits); 5 and 6 bits: nearly
Scale(v, bits) == v * (U \div Max(bits)) + (v * (U % Max(bits))) \div Max(bits)
At(t, k) == t[k + 1]
\* a PNG pixel: samples s of the colour type; pal: palette; trns: <<>>, a key (samples) or alphas of the palette
PngPixel(ctype, bits, s, pal, trns) ==
    LET key == IF trns # <<>> /\ s = trns THEN 0 ELSE U
        f(v) == Scale(v, bits) IN
    CASE ctype = 0 -> <<f(s[1]), f(s[1]), f(s[1]), key>>
      [] ctype = 2 -> <<f(s[1]), f(s[2]), f(s[3]), key>>
      [] ctype = 3 -> LET p == At(pal, s[1]) IN
                      <<Scale(p[1], 8), Scale(p[2], 8), Scale(p[3], 8), IF s[1] < Len(trns) THEN Scale(At(trns, s[1]), 8) ELSE U>>
      [] ctype = 4 -> <<f(s[1]), f(s[1]), f(s[1]), f(s[2])>>
      [] ctype = 6 -> <<f(s[1]), f(s[2]), f(s[3]), f(s[4])>>
\* palette formats: BMP and GIF; key: the index that is transparent or -1
PalPixel(i, pal, key) == LET p == At(pal, i) IN <<Scale(p[1], 8), Scale(p[2], 8), Scale(p[3], 8), IF i = key THEN 0 ELSE U>>
\* four inks, 0 is none: light that is left
Ink(v, k) == ((255 - v) * (255 - k) * 64) \div 255
CmykPixel(s) == [i \in 1..3 |-> (Ink(s[i], s[4]) * (U \div 64)) \div 255] \o <<U>>
\* lossless JPEG: the samples themselves, grey or colours
LosslessPixel(bits, s) == CASE Len(s) = 1 -> [i \in 1..3 |-> Scale(s[1], bits)] \o <<U>>
                            [] Len(s) = 3 -> [i \in 1..3 |-> Scale(s[i], bits)] \o <<U>>
ValidPng == { <<0, 1>>, <<0, 2>>, <<0, 4>>, <<0, 8>>, <<0, 16>>, <<2, 8>>, <<2, 16>>, <<3, 1>>, <<3, 2>>, <<3, 4>>, <<3, 8>>,
              <<4, 8>>, <<4, 16>>, <<6, 8>>, <<6, 16>> }
Channels(ctype) == CASE ctype = 0 -> 1 [] ctype = 2 -> 3 [] ctype = 3 -> 1 [] ctype = 4 -> 2 [] ctype = 6 -> 4
================================================================================
