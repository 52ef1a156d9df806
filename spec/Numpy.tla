---------------------------------- MODULE Numpy ----------------------------------
(* Images as numpy arrays.  An array is a view of memory: an origin and a stride for rows,   *)
(* columns and channels; what it holds at [y, x, c] does not depend on how it is laid out.   *)
EXTENDS Img
Bases == {"rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"}
WithAlpha(s) == s \o "a"
Spaces == Bases \union {WithAlpha(s) : s \in Bases} \union {"gray"}
Channels(s) == IF s = "gray" THEN 1 ELSE IF s \in Bases THEN 3 ELSE 4
Types == {"float32", "float64", "uint8", "uint16", "uint32", "bool"}
DefaultSpace == "rgba"
DefaultType == "float32"
\* how an array of this shape can be read; "" if it cannot
Reading(shape, space) ==
    IF Len(shape) = 2 \/ (Len(shape) = 3 /\ shape[3] = 1) THEN IF space \in {"gray", "auto"} THEN "gray" ELSE ""
    ELSE IF Len(shape) = 3 /\ shape[3] = 3 THEN IF space = "auto" THEN "rgb" ELSE IF space \in Bases THEN space ELSE ""
    ELSE IF Len(shape) = 3 /\ shape[3] = 4 THEN
        IF space = "auto" THEN "rgba" ELSE IF space \in Bases THEN WithAlpha(space)
        ELSE IF \E b \in Bases : space = WithAlpha(b) THEN space ELSE ""
    ELSE ""
Importable(shape, space) == Reading(shape, space) # "" /\ ValidSize(shape[2], shape[1])
\* a component v (millionths) as a number of each type, in the unit of the type: d is within its precision
Unit0 == 1000000
Lim(v) == IF v < 0 THEN 0 ELSE IF v > Unit0 THEN Unit0 ELSE v
Max0(type) == CASE type = "uint8" -> 255 [] type = "uint16" -> 65535
AbsN(v) == IF v < 0 THEN -v ELSE v
Stored(type, v, d) ==
    CASE type = "bool" -> (v >= Unit0 \div 2 => d = 1) /\ (v < Unit0 \div 2 => d = 0) /\ d \in {0, 1}
      [] type = "uint8" -> d \in 0..255 /\ AbsN(d * Unit0 - Lim(v) * 255) <= Unit0 + 1000
      [] type = "uint16" -> d \in 0..65535 /\ AbsN(d * 1000 - ((Lim(v) \div 1000) * 65535 + (((Lim(v) % 1000) * 65535) \div 1000))) <= 1100
      \* numbers: in millionths
      [] type = "uint32" -> AbsN(d - Lim(v)) <= 2
      [] OTHER -> AbsN(d - v) <= 2 + AbsN(v) \div 500000
\* how far a channel may be off after the trip through an array of that type
Lost(space, type) ==
    CASE type \in {"float32", "float64"} -> 200
      [] type = "uint32" -> 60
      [] type = "uint16" -> IF space \in {"rgb", "rgba", "gray"} THEN 18 ELSE 60
      [] type = "uint8" -> IF space \in {"rgb", "rgba", "gray"} THEN 3930 ELSE 9300
\* what is kept of a pixel; g: its luma
Kept(space, p, g) == IF space = "gray" THEN <<g, g, g, Unit0>>
                     ELSE IF space \in Bases THEN <<p[1], p[2], p[3], Unit0>> ELSE p
Trip(space, type, p, g, q) ==
    LET k == Kept(space, p, g) IN
    /\ \A i \in 1..3 : AbsN(q[i] - k[i]) <= Lost(space, type)
    /\ AbsN(q[4] - k[4]) <= (IF type = "uint8" THEN 3930 ELSE 20)

\* views of memory
Elem(mem, v, y, x, c) == mem[v.at + y * v.sy + x * v.sx + c * v.sc]
================================================================================
