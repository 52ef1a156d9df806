----------------------------------- MODULE MCTone -----------------------------------
(* Every adjustment on a grid of colours and parameters: laws; emits every case.        *)
EXTENDS Tone, Json
CONSTANTS Q, Ops
VARIABLE x
Grid == {(i * P) \div Q : i \in 0..Q}
Colours == Grid \X Grid \X Grid
Gammas == {-64, 0, 16, 32, 64, 100, 200}
Params(k) ==
    CASE k \in {"gamma", "gamma_opt", "gamma_saturation"} -> {<<g>> : g \in Gammas}
      [] k \in {"brightness", "vibrance"} -> {<<g>> : g \in {-80, -20, 0, 7, 64}}
      [] k \in {"contrast", "saturation", "stretch_saturation", "lightness"} -> {<<g>> : g \in {-64, 0, 32, 64, 70, 160}}
      [] k = "brightness_contrast" -> {<<a, b>> : a \in {-40, 0, 13}, b \in {0, 64, 90}}
      [] k = "level" -> {<<a, b, g>> : a \in {-10, 0, 20}, b \in {20, 50, 64}, g \in {0, 32, 64, 150}}
      [] k = "gray" -> {<<i>> : i \in Intensities}
      [] k = "hue_rotate" -> {<<64 * d>> : d \in {-1000, -360, -90, 0, 60, 180, 360, 400, 725}}
      [] k = "modulate" -> {<<a, b, d>> : a \in {0, 32, 64, 100}, b \in {0, 64, 128}, d \in {0, 64, 75}}
      [] OTHER -> {<<>>}
Init == x = <<"start">>
Next == x = <<"start">> /\ \E k \in Ops : \E q \in Params(k) : \E c \in Colours : x' = <<k, q, c>>
Spec == Init /\ [][Next]_x
On == x[1] # "start"
Res == IF x[1] \in HslOps THEN InHsl(x[1], x[2], x[3]) ELSE Adjusted(x[1], x[2], x[3], <<P, 0, P \div 2>>)
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
InRange == On => \A i \in 1..3 : Res[i] >= -2 /\ Res[i] <= P + 2
NeutralKeeps == On /\ (IF x[1] \in HslOps \cup (ChannelOps \ {"invert"}) THEN x[2] = Neutral(x[1]) ELSE FALSE) => Near3(Res, x[3], 6)
\* channels are treated alike and independently
Independent == On /\ x[1] \in ChannelOps =>
    LET p == <<x[3][2], x[3][3], x[3][1]>> IN Adjusted(x[1], x[2], p, p) = <<Res[2], Res[3], Res[1]>>
\* larger values stay larger, for parameters that do not invert
Monotone == On /\ x[1] \in {"gamma", "gamma_opt", "level", "brightness", "contrast", "brightness_contrast"} /\ (\A i \in DOMAIN x[2] : x[1] = "brightness" \/ (x[1] = "brightness_contrast" /\ i = 1) \/ x[2][i] >= 0)
    /\ (x[1] = "level" => x[2][2] >= x[2][1]) =>
    \A i, j \in 1..3 : x[3][i] <= x[3][j] => Res[i] <= Res[j] + 1
\* whole turns change nothing, and so does any turn of a grey
Turns == On /\ x[1] = "hue_rotate" /\ ((x[2][1] % (360 * 64)) = 0 \/ Chroma(x[3]) = 0) => Near3(Res, x[3], 6)
\* a sixth of a turn of a pure hue moves to the next one
Sixth == On /\ x[1] = "hue_rotate" /\ x[2][1] = 60 * 64 =>
    Near3(InHsl("hue_rotate", <<60 * 64>>, Res), InHsl("hue_rotate", <<120 * 64>>, x[3]), 20)
GreyIsGrey == On /\ x[1] = "gray" => Res[1] = Res[2] /\ Res[2] = Res[3]
InvertTwice == On /\ x[1] = "invert" => Adjusted("invert", <<>>, Res, Res) = x[3]
Emit == On => PrintT(ToJson([k |-> x[1], q |-> x[2], c |-> x[3]]))
=====================================================================================
