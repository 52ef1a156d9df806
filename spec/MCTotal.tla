---------------------------------- MODULE MCTotal ----------------------------------
(* All chains of operations over sizes and alpha classes: every reachable image is well  *)
(* formed; emits the chains of names for the real code.                                  *)
EXTENDS Total, Json, TLC
CONSTANTS N, M
VARIABLES w, h, al, hist
vars == <<w, h, al, hist>>
Qs(k) ==
    CASE k = "crop" -> {<<x, y, cw, ch>> : x \in {0, w - 1}, y \in {0}, cw \in {1, M}, ch \in {1, 1000}}
      [] k = "resize" -> {<<1, 1>>, <<M, 1>>, <<2, M>>}
      [] k = "resize_pct" -> {<<0>>, <<50>>, <<125>>, <<33>>}
      [] k \in {"drawing", "jpeg_quality"} -> {<<0>>, <<1>>}
      [] OTHER -> {<<>>}
Classes == {"clear", "opaque", "mixed"}
After(rule, a) ==
    CASE rule = "keep" -> {a} [] rule = "opaque" -> {"opaque"}
      [] rule = "either" -> IF a = "opaque" THEN {"opaque"} ELSE Classes
      [] rule = "any" -> Classes
Init == w \in 1..2 /\ h \in 1..2 /\ al \in Classes /\ hist = <<>>
Next == Len(hist) < N /\ \E k \in AllOps : \E q \in Qs(k) : \E s \in Sizes(k, q, w, h, 2, 1) : \E a \in After(Alpha(k, q), al) :
    /\ s[1] <= M /\ s[2] <= M
    /\ w' = s[1] /\ h' = s[2] /\ al' = a /\ hist' = Append(hist, k)
Spec == Init /\ [][Next]_vars
Formed == w >= 1 /\ h >= 1 /\ al \in Classes
Opaque == (hist # <<>> /\ hist[Len(hist)] \in Opaques) => al = "opaque"
KeepsAlpha == [][(hist' # <<>> /\ hist'[Len(hist')] \in Keeps) => al' = al]_vars
Emit == Len(hist) = N /\ w = 2 /\ h = 1 /\ al = "mixed" => PrintT(ToJson([ops |-> hist]))
====================================================================================
