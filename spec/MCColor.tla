----------------------------------- MODULE MCColor -----------------------------------
(* The colour models are inverse to each other and hit their fixed points, on a grid.  *)
EXTENDS Color, Json
CONSTANT Q
VARIABLE c
Grid == {(i * P) \div Q : i \in 0..Q}
Init == c \in Grid \X Grid \X Grid
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
SrgbInverse == Near3(FromSrgb(ToSrgb(c)), c, 12)
YuvInverse == Near3(FromYuv(ToYuv(c)), c, 30)
XyzInverse == Near3(FromXyz(ToXyz(c)), c, 24)
LabInverse == \A i \in {"D50", "D65", "E"}, o \in {2, 10} : Near3(FromLab(ToLab(c, White(i, o)), White(i, o)), c, 120)
LchInverse == LET q == ToLab(c, D65) IN Near3(LchToLab(LabToLch(q)), q, 24)
HslInverse == Near3(HslToRgb(HslOf(c)), c, 6)
HsvInverse == Near3(HsvToRgb(HsvOf(c)), c, 6)
\* greys have no chroma in any model
Grey == c[1] = c[2] /\ c[2] = c[3] =>
    /\ HslOf(c) = <<0, 0, c[1]>> /\ HsvOf(c) = <<0, 0, c[1]>>
    /\ AbsI(ToYuv(c)[2]) <= 4 /\ AbsI(ToYuv(c)[3]) <= 4
    /\ AbsI(ToLab(c, D65)[2]) < 200 /\ AbsI(ToLab(c, D65)[3]) < 200
    /\ \A k \in Intensities \ {"saturation"} : Close(Gray(k, c), c[1], 4)
Mono == \A k \in Intensities : Gray(k, c) >= 0 /\ Gray(k, c) <= P + 2
Permuted == HslOf(c)[2] = HslOf(<<c[2], c[3], c[1]>>)[2] /\ HsvOf(c)[3] = HsvOf(<<c[3], c[2], c[1]>>)[3]
Emit == PrintT(ToJson([r |-> c[1], g |-> c[2], b |-> c[3]]))
======================================================================================
