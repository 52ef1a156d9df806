--------------------------------- MODULE MCNumpy ---------------------------------
(* A picture of labelled components goes into memory in some layout, is seen through a view  *)
(* and read back.                                                                            *)
EXTENDS Numpy, Json, FiniteSets
CONSTANTS MaxW, MaxH
VARIABLES s, mem, back
Layouts == {"c", "fortran", "rows_reversed", "columns_reversed", "transposed", "every_second", "cut_out"}
\* where the parts of a (h, w, n) array are in each layout
View(l, h, w, n) ==
    CASE l = "c" -> [at |-> 0, sy |-> w * n, sx |-> n, sc |-> 1, size |-> h * w * n]
      [] l = "fortran" -> [at |-> 0, sy |-> 1, sx |-> h, sc |-> h * w, size |-> h * w * n]
      [] l = "rows_reversed" -> [at |-> (h - 1) * w * n, sy |-> -(w * n), sx |-> n, sc |-> 1, size |-> h * w * n]
      [] l = "columns_reversed" -> [at |-> (w - 1) * n, sy |-> w * n, sx |-> -n, sc |-> 1, size |-> h * w * n]
      [] l = "transposed" -> [at |-> 0, sy |-> n, sx |-> h * n, sc |-> 1, size |-> h * w * n]
      [] l = "every_second" -> [at |-> 0, sy |-> 4 * w * n, sx |-> 2 * n, sc |-> 1, size |-> 4 * h * w * n]
      [] l = "cut_out" -> [at |-> (w + 2) * n + n, sy |-> (w + 2) * n, sx |-> n, sc |-> 1, size |-> (h + 2) * (w + 2) * n]
Index(v, y, x, c) == v.at + y * v.sy + x * v.sx + c * v.sc
Init == /\ s \in [lay : Layouts, h : 1..MaxH, w : 1..MaxW, space : {"gray", "rgb", "lcha", "rgba"}]
        /\ mem = <<>> /\ back = <<>>
N == Channels(s.space)
V == View(s.lay, s.h, s.w, N)
Write == /\ mem = <<>>
         /\ mem' = [i \in 0..(V.size - 1) |->
               IF \E y \in 0..(s.h - 1), x \in 0..(s.w - 1), c \in 0..(N - 1) : Index(V, y, x, c) = i
               THEN CHOOSE t \in (0..(s.h - 1)) \X (0..(s.w - 1)) \X (0..(N - 1)) : Index(V, t[1], t[2], t[3]) = i
               ELSE <<-1, -1, -1>>]
         /\ UNCHANGED <<s, back>>
Read == /\ mem # <<>> /\ back = <<>>
        /\ back' = [i \in 1..(s.w * s.h) |-> [c \in 1..N |-> Elem(mem, V, (i - 1) \div s.w, (i - 1) % s.w, c - 1)]]
        /\ UNCHANGED <<s, mem>>
Next == Write \/ Read
Spec == Init /\ [][Next]_<<s, mem, back>>
\* pixel (x, y) of the image is element [y, x], in every layout
PlaceInv == back # <<>> => \A i \in DOMAIN back : \A c \in 1..N : back[i][c] = <<(i - 1) \div s.w, (i - 1) % s.w, c - 1>>
\* no two elements share memory
ApartInv == mem # <<>> => Cardinality({i \in DOMAIN mem : mem[i] # <<-1, -1, -1>>}) = s.w * s.h * N
\* what is exported in a space can be imported in it, and by default if it is (linear) RGB or grey
ShapeInv == \A sp \in Spaces : LET shape == <<s.h, s.w, Channels(sp)>> IN
    /\ Reading(shape, sp) = sp
    /\ Reading(shape, "auto") = sp <=> sp \in {"rgb", "rgba", "gray"}
    /\ Reading(shape, "cmyk") = ""
\* storing is monotone, and the ends are stored exactly enough to come back
StoreInv == \A t \in {"uint8", "uint16"} : \A v \in {0, Unit0, 500000, 123456} :
    /\ \E d \in 0..255 : Stored("uint8", v, d)
    /\ ~(Stored(t, 0, 2)) /\ ~(Stored(t, Unit0, Max0(t) - 2)) /\ Stored(t, -5, 0) /\ Stored(t, 2 * Unit0, Max0(t))
Done == back # <<>>
\* every space, type and layout is tried on the real module
Emit == Done => \A sp \in Spaces, t \in Types : (s.space = "rgb") =>
            PrintT(ToJson([lay |-> s.lay, h |-> s.h, w |-> s.w, space |-> sp, type |-> t]))
================================================================================
