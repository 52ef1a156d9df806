---------------------------------- MODULE MCNoise ----------------------------------
(* Histories of noise on one pixel after another: what can be reached at all.            *)
EXTENDS Noise, Json, TLC
CONSTANTS N, Dom, L
VARIABLES px, hist
vars == <<px, hist>>
C(r, g, b, a) == <<262144 * r, 262144 * g, 262144 * b, 262144 * a>>
Starts == {C(0, 0, 0, 0), C(1, 2, 3, 2), C(4, 4, 4, 4), C(4, 0, 2, 4)}
Grid == {C(r, g, b, a) : r \in L, g \in L, b \in L, a \in {0, 2, 4}}
Init == px \in Starts /\ hist = <<>>
Orig == IF hist = <<>> THEN px ELSE hist[1][3]
\* a step picks any outcome out of a coarse grid of values
Next == Len(hist) < N /\ \E k \in Dom, t \in {0, 16, 32, 64} : \E d \in Grid : Outcome(k, t, px, d, 0) /\ px' = d /\ hist' = Append(hist, <<k, t, px>>)
Spec == Init /\ [][Next]_vars
Ks == {hist[i][1] : i \in DOMAIN hist}
Pepper == Ks \subseteq {"salt_n_pepper"} => px \in {Orig, Black, White}
RgbOnly == Ks \subseteq {"rgb"} => px[4] = Orig[4] /\ \A i \in 1..3 : px[i] \in {Orig[i], P}
AlphaKept == "salt_n_pepper" \notin Ks => px[4] = Orig[4]
InRange == \A i \in 1..4 : px[i] >= 0 /\ px[i] <= P
NoShare == (\A i \in DOMAIN hist : hist[i][2] = 0) => px = Orig
Shape == hist # <<>> /\ hist[Len(hist)][2] = 64 /\ hist[Len(hist)][1] = "salt_n_pepper" => px \in {Orig, Black, White} \cup Grid
Step == [][\A i \in 1..3 : (hist'[Len(hist')][1] = "rgb") => px'[i] >= px[i]]_vars
====================================================================================
