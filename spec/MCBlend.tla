---------------------------------- MODULE MCBlend ----------------------------------
(* Laws of the definitions on a grid of colours.                                    *)
EXTENDS Blend
CONSTANT Q                         \* grid steps per channel
VARIABLE st
Grid == {(i * S) \div Q : i \in 0..Q}
Init == st \in [p1 : {<<r, g, b, a>> : r \in Grid, g \in Grid, b \in Grid, a \in {S}},
                p2 : {<<r, g, b, a>> : r \in Grid, g \in {0, S \div 2}, b \in {S, 0}, a \in {0, S \div 2, S}},
                t : {0, S \div 2, S}]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
P1 == <<st.p1[1], st.p1[2], st.p1[3]>>
\* intensity 0 leaves the first image's colour unchanged
Neutral == st.t = 0 =>
    /\ \A op \in RgbOps \cup {"normal"} : Moved(op, st.p1, st.p2, 0) = P1
    /\ \A op \in HslOps : CloseRgb(HslResult(op, st.p1, st.p2, 0), P1, 6)
\* results lie between the first value and the operation's value
Between == \A op \in RgbOps \cup {"normal"} : \A i \in 1..3 :
    LET v == Moved(op, st.p1, st.p2, st.t)[i]
        o == Clamp01(OpValue(op, st.p1[i], st.p2[i])) IN
    v >= Min2(st.p1[i], o) - 1 /\ v <= Max2(st.p1[i], o) + 1
\* full intensity and an opaque second pixel give exactly the operation's value
Full == st.t = S /\ st.p2[4] = S => \A op \in RgbOps \cup {"normal"} :
    \A i \in 1..3 : Moved(op, st.p1, st.p2, S)[i] = Clamp01(OpValue(op, st.p1[i], st.p2[i]))
HslRoundTrip == LET a == ToHsl(st.p1[1], st.p1[2], st.p1[3]) IN CloseRgb(FromHsl(a.h, a.s, a.l), P1, 6)
DarkenLighten == \A i \in 1..3 :
    Moved("darken", st.p1, st.p2, st.t)[i] <= st.p1[i] /\ Moved("lighten", st.p1, st.p2, st.t)[i] >= st.p1[i]
HueShort == \A h1, h2 \in {-50000, -30000, 0, 20000, 51000} :
    LET h == HueMoved(h1, h2, st.t) IN
    /\ h > -PI16 /\ h <= PI16
    /\ st.t = S => Close(h, h2, 2)
    /\ st.t = 0 => h = h1
================================================================================
