---------------------------------- MODULE MCRotate ----------------------------------
(* Laws of the turned positions and of the trigonometry, for every small size and    *)
(* a grid of angles (in 1/64 degrees); every state is a case for the real code.      *)
EXTENDS Resample, Json
CONSTANTS MaxW, Step
VARIABLE c
Init == c \in [w : 1..MaxW, h : 1..MaxW, q : {(k * Step) - 400 * 64 : k \in 0..((800 * 64) \div Step)} \cup {90 * 64 * k : k \in -5..5}]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Coarse(v) == v \div 1024           \* so that squares fit
Pythagoras == Close(Coarse(Sin64(c.q)) * Coarse(Sin64(c.q)) + Coarse(Cos64(c.q)) * Coarse(Cos64(c.q)), 1024 * 1024, 4096)
OddEven == Close(Sin64(-c.q), -Sin64(c.q), 8) /\ Close(Cos64(-c.q), Cos64(c.q), 8)
Period == Close(Sin64(c.q + 360 * 64), Sin64(c.q), 0) /\ Close(Sin64(c.q + 180 * 64), -Sin64(c.q), 0)
Pts == (0..(c.w - 1)) \X (0..(c.h - 1))
\* turning by q and by q + 180 degrees are opposite to each other with respect to the centre
Opposite == \A p \in Pts :
    LET a == RotPos(p[1], p[2], c.w, c.h, c.q)
        b == RotPos(p[1], p[2], c.w, c.h, c.q + 180 * 64) IN
    Close(a.x + b.x, (c.w - 1) * P, 4) /\ Close(a.y + b.y, (c.h - 1) * P, 4)
\* the mirrored picture turns the other way
Mirrored == \A p \in Pts :
    LET a == RotPos(p[1], p[2], c.w, c.h, c.q)
        b == RotPos(c.w - 1 - p[1], p[2], c.w, c.h, -c.q) IN
    Close(a.x + b.x, (c.w - 1) * P, 64) /\ Close(a.y, b.y, 64)
\* a quarter turn of a square is the exact rotation of Geom
Quarter == c.q = 90 * 64 /\ c.w = c.h => \A p \in Pts :
    LET a == RotPos(p[1], p[2], c.w, c.h, c.q) IN Close(a.x, p[2] * P, 4) /\ Close(a.y, (c.h - 1 - p[1]) * P, 4)
Emit == PrintT(ToJson(c))
================================================================================
