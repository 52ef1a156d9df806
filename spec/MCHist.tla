----------------------------------- MODULE MCHist -----------------------------------
(* All images of up to N pixels over a small palette, all modes and some thresholds.     *)
EXTENDS Hist, Json
CONSTANTS N, Half
VARIABLE x
C(r, g, b) == <<4096 * r, 4096 * g, 4096 * b, P>>
Palette == IF Half = 1 THEN {C(0, 0, 0), C(256, 256, 256), C(100, 100, 100), C(200, 40, 10), C(10, 12, 201)}
           ELSE {C(90, 90, 90), C(91, 92, 93), C(30, 120, 60), C(256, 0, 128), C(3, 2, 1)}
Images == UNION {[1..n -> Palette] : n \in 1..N}
Thresholds == {0, 1, 501, 700, 999}         \* in 2000ths; below one half
Init == x = <<"start">>
Next ==
    \/ x = <<"start">> /\ \E px \in Images : x' = <<"image", px>>
    \/ x[1] = "image" /\ LET px == x[2] IN
       \/ \E m \in EqModes : x' = <<"equalize", m, px, 0>>
       \/ \E t \in Thresholds : x' = <<"stretch", "rgb", px, t>>
       \/ \E m \in BalModes, t \in Thresholds : x' = <<"balance", m, px, t>>
Spec == Init /\ [][Next]_x
On == x[1] \notin {"start", "image"}
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Res(px) == CASE x[1] = "equalize" -> TLCEval(Equalized(x[2], px))
             [] x[1] = "stretch"  -> TLCEval(Stretched(px, x[4]))
             [] x[1] = "balance"  -> LET lim == TLCEval(BalLimits(x[2], px, x[4])) IN [i \in DOMAIN px |-> BalLeveled(x[2], lim, px[i])]
\* the order of the pixels does not matter
Order == On => Res(Rev(x[3])) = Rev(Res(x[3]))
\* nor does repeating the whole image
Twice == On => SubSeq(Res(x[3] \o x[3]), 1, Len(x[3])) = Res(x[3])
EqRange == On /\ x[1] # "balance" => \A i \in DOMAIN x[3] : \A k \in 1..3 : Res(x[3])[i][k] >= -2 /\ Res(x[3])[i][k] <= P + 2
EqMonotone == On /\ x[1] \in {"equalize", "stretch"} /\ x[2] \in {"rgb", "srgb"} =>
    LET r == Res(x[3]) IN \A i, j \in DOMAIN x[3] : \A k \in 1..3 : x[3][i][k] <= x[3][j][k] => r[i][k] <= r[j][k]
\* the highest value of a treated channel becomes one, unless there is nothing but zero
EqTop == On /\ x[1] = "equalize" /\ x[2] \in {"rgb", "srgb"} =>
    LET r == Res(x[3]) IN \A k \in 1..3 : (\E i \in DOMAIN x[3] : x[3][i][k] > 0) => \E i \in DOMAIN x[3] : Close(r[i][k], P, 4)
BalMonotone == On /\ x[1] = "balance" /\ x[2] = "rgb" =>
    LET r == Res(x[3]) IN \A i, j \in DOMAIN x[3] : \A k \in 1..3 : x[3][i][k] <= x[3][j][k] => r[i][k] <= r[j][k]
Ordered == On /\ x[1] # "equalize" => IF x[1] = "stretch" THEN LET b == [i \in DOMAIN x[3] |-> GreyBin(x[3][i])] IN BlackPoint(b, x[4]) <= WhitePoint(b, x[4])
                                      ELSE \A k \in BalTreated(x[2]) : LET l == BalLimits(x[2], x[3], x[4])[k] IN l[1] <= l[2]
Emit == On => PrintT(ToJson([k |-> x[1], m |-> x[2], px |-> x[3], t |-> x[4]]))
=====================================================================================
