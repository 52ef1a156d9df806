----------------------------------- MODULE Noise -----------------------------------
(* Noise as nondeterministic actions on one image: a pixel is <<r, g, b, a>> scaled by P; *)
(* shares t are scaled by 64 (0..64).                                                     *)
EXTENDS Real
Black == <<0, 0, 0, P>>
White == <<P, P, P, P>>
Kinds == {"salt_n_pepper", "rgb", "random", "gaussian"}
Mix(v, n, t) == DivR(n * t + v * (64 - t), 64)
\* may pixel c become d?  tol: rounding
Outcome(k, t, c, d, tol) ==
    IF t = 0 THEN d = c
    ELSE CASE k = "salt_n_pepper" -> d \in {Black, White} \/ (d = c /\ t < 32) \/ (t = 32 /\ d = c)
           [] k = "rgb" -> (d = c /\ t < 64) \/ (t = 64 /\ d = c) \/ \E i \in 1..3 : d = [c EXCEPT ![i] = P]
           [] k = "random" -> /\ d[4] = c[4]
                              /\ \A i \in 1..3 : d[i] >= 0 /\ d[i] <= P
                                     /\ d[i] >= ClampP(Mix(c[i], -P, t)) - tol /\ d[i] <= ClampP(Mix(c[i], P, t)) + tol
           [] k = "gaussian" -> /\ d[4] = c[4]          \* 7 standard deviations
                                /\ \A i \in 1..3 : d[i] >= 0 /\ d[i] <= P
                                     /\ d[i] >= ClampP(Mix(c[i], -7 * P, t)) - tol /\ d[i] <= ClampP(Mix(c[i], 7 * P, t)) + tol
NoiseStep(k, t, px, qx, tol) == Len(qx) = Len(px) /\ \A i \in DOMAIN px : Outcome(k, t, px[i], qx[i], tol)

\* is c a plausible number of successes of n trials with probability num/den?  6.5 standard deviations
Plausible(c, n, num, den) ==
    LET e == (n * num) \div den
        var == (e * (den - num)) \div den
        d == AbsI(c - e) IN d * d <= 43 * (var + 2) + 100
\* which shares the counters must have
Share(k, t, name) ==
    CASE k = "salt_n_pepper" /\ name \in {"black", "white"} -> <<t, 64>>
      [] k = "rgb" /\ name \in {"red", "green", "blue"} -> <<t, 192>>
      [] k \in {"salt_n_pepper", "rgb"} /\ name \in {"first", "even", "any"} -> <<(IF k = "rgb" THEN 1 ELSE 2) * t, 64>>
      [] k \in {"salt_n_pepper", "rgb"} /\ name \in {"next", "far", "twice"} -> LET q == (IF k = "rgb" THEN 1 ELSE 2) * t IN <<q * q, 4096>>
      [] k = "random" /\ name \in {"q1", "q2", "q3", "q4"} -> <<1, 4>>
      [] k = "gaussian" /\ name \in {"q1", "q4"} -> <<15866, 100000>>
      [] k = "gaussian" /\ name \in {"q2", "q3"} -> <<34134, 100000>>
      [] k \in {"random", "gaussian"} /\ name \in {"any", "first", "even"} -> <<1, 2>>
      [] k \in {"random", "gaussian"} /\ name \in {"next", "far", "twice", "channels"} -> <<1, 4>>
StatOk(e) == e.ok /\ e.other = 0 /\ \A i \in DOMAIN e.counts :
    LET c == e.counts[i]
        s == Share(e.k, e.t, c[1]) IN
    IF s[2] = 100000 THEN Plausible(c[2], c[3], s[1] \div 10, 10000) ELSE Plausible(c[2], c[3], s[1], s[2])
====================================================================================
