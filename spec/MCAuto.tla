----------------------------------- MODULE MCAuto -----------------------------------
(* All images of up to N pixels over a small palette under every automatic correction.   *)
EXTENDS Auto, Json
CONSTANTS N
VARIABLE x
C(r, g, b) == <<4096 * r, 4096 * g, 4096 * b, P>>
Palette == {C(0, 0, 0), C(256, 256, 256), C(100, 100, 100), C(200, 40, 10), C(10, 120, 201), C(128, 140, 128)}
Images == UNION {[1..n -> Palette] : n \in 1..N}
Init == x = <<"start">>
Next ==
    \/ x = <<"start">> /\ \E px \in Images : x' = <<"image", px>>
    \/ x[1] = "image" /\ LET px == x[2] IN
       \/ \E f \in {0, 64, 120, -64} : x' = <<"lightness", "-", px, <<f>>>>
       \/ \E m \in SatModes, o \in {0, 32, 64, 100} : x' = <<"saturation", m, px, <<o>>>>
       \/ \E t \in {0, 32, 64} : \E p \in {<<6500, 6500>>, <<6500, 3000>>, <<5000, 9100>>, <<2501, 12000>>, <<4000, 4000>>, <<1200, 1200>>} :
             x' = <<"temperature", "-", px, <<p[1], p[2], t>>>>
       \/ \E f \in {0, 64, -32}, t \in {0, 32} : x' = <<"auto_temperature", "-", px, <<f, t>>>>
Spec == Init /\ [][Next]_x
On == x[1] \notin {"start", "image"}
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
Sat1(m, g, c) == LET q == SatModel(m, c) IN SatBack(m, <<q[1], Boosted(m, g, q, q[2]), q[3]>>)
Res(px) ==
    CASE x[1] = "lightness" -> LET g == LightnessGamma(px, x[4][1]) IN [i \in DOMAIN px |-> Lightened(g, px[i])]
      [] x[1] = "saturation" -> LET g == SatGamma(px, x[4][1], x[2]) IN [i \in DOMAIN px |-> Sat1(x[2], g, px[i])]
      [] x[1] = "temperature" -> [i \in DOMAIN px |-> Cooled(px, x[4][1], x[4][2], x[4][3], px[i])]
      [] x[1] = "auto_temperature" -> [i \in DOMAIN px |-> Cooled(px, 6500, AutoTemperature(px, x[4][1]), x[4][2], px[i])]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Order == On => Res(Rev(x[3])) = Rev(Res(x[3]))
Twice == On => SubSeq(Res(x[3] \o x[3]), 1, Len(x[3])) = Res(x[3])
InRange == On => \A i \in DOMAIN x[3] : \A k \in 1..3 : Res(x[3])[i][k] >= -40 /\ Res(x[3])[i][k] <= P + 40
Same == On => LET neutral == (x[1] = "lightness" /\ x[4][1] = 0) \/ (x[1] = "temperature" /\ x[4][1] = x[4][2] /\ x[4][3] = 0)
                             \/ (x[1] = "auto_temperature" /\ x[4] = <<0, 0>>) IN
              neutral => \A i \in DOMAIN x[3] : Near3(Res(x[3])[i], x[3][i], 4)
\* black stays black and, without tint correction, greys stay grey under saturation
Black == On => \A i \in DOMAIN x[3] : x[3][i] = C(0, 0, 0) /\ (x[1] = "lightness" => LightnessGamma(x[3], x[4][1]) > 0) => Near3(Res(x[3])[i], <<0, 0, 0>>, 40)
Grey == On /\ x[1] = "saturation" /\ x[2] # "lch" => \A i \in DOMAIN x[3] : Chroma(x[3][i]) = 0 =>
    \/ Near3(Res(x[3])[i], x[3][i], 2)
    \/ Eased(SatGamma(x[3], x[4][1], x[2]), BrightAt(x[2], SatModel(x[2], x[3][i]))) <= 0
\* a colder target raises red against blue
Warmer == On /\ x[1] = "temperature" /\ x[4][3] = 0 /\ x[4][1] > x[4][2] => \A i \in DOMAIN x[3] : LET r == Res(x[3])[i] IN
    r[1] <= x[3][i][1] + 4 /\ r[3] >= x[3][i][3] - 4
Emit == On => PrintT(ToJson([k |-> x[1], m |-> x[2], px |-> x[3], q |-> x[4]]))
=====================================================================================
