----------------------------------- MODULE MCReal -----------------------------------
(* Laws of the fixed-point functions on a grid (the tables are part of the model).   *)
EXTENDS Real
CONSTANT Step
VARIABLE v
Init == v \in {k * Step : k \in 0..(P \div Step)} \cup {1, 2, 3, 100, 3283, 9286}
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
W == P - v
ExpLn == v > 0 => Close(ExpNeg(NegLn(v)), v, 6)
ExpAdd == Close(MulU(ExpNeg(v), ExpNeg(W)), ExpNeg(P), 6)
LnMul == v > 2000 => Close(NegLn(MulU(v, v)), 2 * NegLn(v), 6 + (4 * P) \div v + P \div Max2(1, MulU(v, v)))
Pows == /\ Close(PowP(v, 1, 1), v, 6) /\ Close(PowP(v, 2, 1), MulU(v, v), 6)
        /\ Close(MulU(SqrtP(v), SqrtP(v)), v, 8)
        /\ Close(MulU(CbrtP(v), MulU(CbrtP(v), CbrtP(v))), v, 12)
        /\ Close(PowX(v, P), v, 6) /\ Close(PowX(v, P \div 2), SqrtP(v), 6) /\ Close(PowX(v, 5 * P + P \div 2), PowP(v, 11, 2), 8)
        /\ Close(PowP(v, 12, 5), PowX(v, 2516582), 8)
Mono == v > 0 /\ v + Step <= P => NegLn(v + Step) <= NegLn(v) /\ ExpNeg(v + Step) <= ExpNeg(v)
Trig == /\ Close(MulP(SinR(v), SinR(v)) + MulP(CosR(v), CosR(v)), P, 8)
        /\ Close(SinR(2 * v), 2 * MulP(SinR(v), CosR(v)), 10)
        /\ Close(SinR(-v), -SinR(v), 4) /\ Close(SinR(PiP - v), SinR(v), 6) /\ Close(SinR(v + PiP), -SinR(v), 6)
AtanOk == LET a == Atan2P(v, W) IN     \* the angle of (W, v)
    /\ Close(MulP(SinR(a), W), MulP(CosR(a), v), 8)
    /\ Close(Atan2P(-v, W), -a, 2) /\ (v > 0 => Close(Atan2P(v, -W), PiP - a, 3)) /\ Close(Atan2P(W, v), PiP \div 2 - a, 3)
DivMul == v > 0 => Close(MulU(DivP(MulU(v, W), Max2(v, W)), Max2(v, W)), MulU(v, W), 3)
TanhOk == LET t == TanhP(v) IN t <= v /\ Close(DivP(2 * (t \div 2), P), t, 2) /\ Close(2 * t - MulU(MulU(t, t), TanhP(2 * v)), TanhP(2 * v), 12)
======================================================================================
