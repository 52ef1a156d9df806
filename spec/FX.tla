------------------------------------ MODULE FX ------------------------------------
(* Fixed-point arithmetic: reals as integers scaled by S; TLC has 32-bit integers. *)
EXTENDS Img
S == 16384
H6 == 6 * S                        \* the whole hue circle; a sixth of it is S

\* rounded quotient (TLC's \div floors)
DivR(a, b) == IF b < 0 THEN (2 * (-a) - b) \div (2 * (-b)) ELSE (2 * a + b) \div (2 * b)
\* keep |a*b| < 2^30
Mul(a, b) == (a * b + (S \div 2)) \div S
Div(a, b) == DivR(a * S, b)        \* |a| <= 4*S
Clamp01(v) == IF v < 0 THEN 0 ELSE IF v > S THEN S ELSE v
\* no overflow for the sentinels of non-finite values (+-2000000001...)
Close(a, b, tol) == a <= b + tol /\ b <= a + tol
InUnit(v) == v >= 0 /\ v <= S
Finite(v) == v > -1900000000 /\ v < 1900000000
Max3(a, b, c) == Max2(a, Max2(b, c))
Min3(a, b, c) == Min2(a, Min2(b, c))
Lerp(a, b, t) == a + Mul(b - a, t)

--------------------------------------------------------------------------------
\* HSL and HSV: hue scaled so that the full circle is H6, the rest by S
HueOf(r, g, b) ==
    LET mx == Max3(r, g, b)
        mn == Min3(r, g, b)
        d == mx - mn
        h == IF d = 0 THEN 0
             ELSE IF mx = r THEN Div(g - b, d)
             ELSE IF mx = g THEN 2 * S + Div(b - r, d)
             ELSE 4 * S + Div(r - g, d) IN
    h % H6
ToHsl(r, g, b) ==
    LET mx == Max3(r, g, b)
        mn == Min3(r, g, b)
        d == mx - mn
        den == IF mx + mn > S THEN 2 * S - mx - mn ELSE mx + mn IN
    [h |-> HueOf(r, g, b), s |-> IF d = 0 THEN 0 ELSE Div(d, den), l |-> (mx + mn) \div 2]
ToHsv(r, g, b) ==
    LET mx == Max3(r, g, b)
        mn == Min3(r, g, b) IN
    [h |-> HueOf(r, g, b), s |-> IF mx = 0 THEN 0 ELSE Div(mx - mn, mx), v |-> mx]
\* chroma form of the inverse: m + c * (trapezoid of the hue)
Trap(h) ==      \* 0 up to S at hue 0 (red), S between -60 and 60 degrees
    LET x == h % H6
        d == IF x > 3 * S THEN H6 - x ELSE x IN     \* distance to red on the circle
    Clamp01(2 * S - d)
FromHsl(h, s, l) ==
    LET c == Mul(S - AbsI(2 * l - S), s)
        m2 == 2 * l - c IN                            \* twice the minimum channel
    <<(m2 + 2 * Mul(c, Trap(h)) + 1) \div 2,
      (m2 + 2 * Mul(c, Trap(h - 2 * S)) + 1) \div 2,
      (m2 + 2 * Mul(c, Trap(h - 4 * S)) + 1) \div 2>>
FromHsv(h, s, v) ==
    LET c == Mul(v, s)
        m == v - c IN
    <<m + Mul(c, Trap(h)), m + Mul(c, Trap(h - 2 * S)), m + Mul(c, Trap(h - 4 * S))>>
\* comparing colours
CloseRgb(a, b, tol) == \A i \in 1..3 : Close(a[i], b[i], tol)
================================================================================
