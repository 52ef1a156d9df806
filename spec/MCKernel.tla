-------------------------------- MODULE MCKernel --------------------------------
(* Exhaustive small scope: every window size, position and image size; laws of the *)
(* definitions; every (size, n, position) printed as a case for the real code.     *)
EXTENDS Kernel, Json
CONSTANTS MaxW, MaxH, MaxN, Beyond
VARIABLE c
Labelled(w, h) == Gen(w, h, LAMBDA x, y : 1 + x + 10 * y)
Init == c \in {[w |-> w, h |-> h, n |-> n, x |-> x, y |-> y] :
                w \in 1..MaxW, h \in 1..MaxH, n \in 1..MaxN,
                x \in (-Beyond)..(MaxW + Beyond), y \in (-Beyond)..(MaxH + Beyond)}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
B == Labelled(c.w, c.h)
Win == Window(B, c.n, c.x, c.y)
\* inside the image the window is the plain sub-rectangle
InsideIsPlain == \A r, q \in 1..c.n :
    LET x == c.x - (c.n \div 2) + q - 1
        y == c.y - (c.n \div 2) + r - 1 IN
    In(B, x, y) => Win[r][q] = 1 + x + 10 * y
\* rows and columns are monotone: replication never wraps around
Monotone == \A r \in 1..c.n : \A q \in 1..(c.n - 1) : Win[r][q] <= Win[r][q + 1] /\ Win[q][r] <= Win[q + 1][r]
\* a kernel with a single 1 picks exactly that window cell; kernels are linear in the weights
Unit(n, r, q) == [w |-> n, h |-> n, k |-> [i \in 1..(n * n) |-> IF i = (r - 1) * n + q THEN 1 ELSE 0]]
Id(p, ch) == p
UnitPicks == \A r, q \in 1..c.n : ConvAt(B, Unit(c.n, r, q), Id, 1, c.x, c.y) = Win[r][q]
Emit == PrintT(ToJson(c))
================================================================================
