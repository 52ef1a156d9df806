------------------------------------ MODULE Real ------------------------------------
(* Elementary functions in fixed point, scaled by P = 2^20: results are right to a few *)
(* units (MCReal checks their laws).  Tables hold only values of the function itself.  *)
EXTENDS FX, SequencesExt
P == 1048576
SeqSum(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)

\* |a| < 2P, 0 <= b <= P (or smaller a, larger b: |a| * b < 2 P^2)
MulV(a, b) == LET q == a \div 1024  r == a % 1024 IN (q * b + (r * b) \div 1024 + 511) \div 1024
MulU(a, b) == IF b > 2 * P THEN MulV(b, a) ELSE MulV(a, b)
MulP(a, b) == IF (a < 0) = (b < 0) THEN MulU(AbsI(a), AbsI(b)) ELSE -MulU(AbsI(a), AbsI(b))
\* quotient, 0 <= a <= b < 2P
DivP(a, b) == LET q == (a * 1024) \div b  r == (a * 1024) % b IN q * 1024 + (r * 1024 + b \div 2) \div b
SDivP(a, b) == IF a < 0 THEN -DivP(-a, b) ELSE DivP(a, b)
ClampP(v) == IF v < 0 THEN 0 ELSE IF v > P THEN P ELSE v

ExpInt == <<
    1048576, 385750, 141909, 52206, 19205, 7065, 2599, 956, 352, 129, 48, 18, 6, 2, 1>>     \* exp(-n)
ExpFrac == <<
    1048576, 1032319, 1016315, 1000558, 985046, 969774, 954739, 939937, 925365, 911019, 896895,
    882990, 869300, 855823, 842554, 829492, 816632, 803971, 791507, 779236, 767155, 755261, 743552,
    732024, 720675, 709502, 698502, 687673, 677012, 666515, 656182, 646009, 635993, 626133, 616426,
    606869, 597461, 588198, 579079, 570101, 561262, 552561, 543994, 535560, 527257, 519083, 511035,
    503112, 495312, 487633, 480073, 472630, 465303, 458089, 450987, 443995, 437112, 430335, 423663,
    417095, 410628, 404262, 397995, 391824>>     \* exp(-i/64)
\* exp(-x), x >= 0
ExpNeg(x) ==
    IF x >= 14 * P THEN 0
    ELSE LET f == x % P
             r == f % 16384 IN
         MulU(MulU(ExpInt[x \div P + 1], ExpFrac[f \div 16384 + 1]), P - r + (r * r) \div (2 * P))

Ln2 == 726817
LnTab == <<
    726817, 710560, 694551, 678783, 663248, 647940, 632852, 617979, 603313, 588850, 574583, 560508,
    546619, 532912, 519382, 506024, 492835, 479809, 466942, 454232, 441674, 429265, 417001, 404878,
    392895, 381046, 369330, 357743, 346284, 334947, 323733, 312636, 301657, 290790, 280036, 269390,
    258852, 248418, 238087, 227857, 217726, 207691, 197752, 187906, 178152, 168488, 158912, 149422,
    140018, 130697, 121458, 112301, 103222, 94221, 85297, 76448, 67674, 58972, 50341, 41781, 33291,
    24869, 16513, 8224, 0>>     \* -ln(1/2 + i/128)
InvTab == <<
    2097152, 2064888, 2033602, 2003250, 1973790, 1945184, 1917396, 1890391, 1864135, 1838599,
    1813753, 1789570, 1766023, 1743087, 1720740, 1698959, 1677722, 1657009, 1636802, 1617081,
    1597830, 1579032, 1560671, 1542733, 1525201, 1508064, 1491308, 1474920, 1458888, 1443201,
    1427848, 1412818, 1398101, 1383688, 1369569, 1355735, 1342177, 1328888, 1315860, 1303085,
    1290555, 1278264, 1266205, 1254371, 1242757, 1231355, 1220161, 1209169, 1198373, 1187768,
    1177348, 1167111, 1157049, 1147160, 1137438, 1127880, 1118481, 1109237, 1100145, 1091201,
    1082401, 1073742, 1065220, 1056833, 1048576>>    \* 1/(1/2 + i/128)
RECURSIVE Halvings(_)
Halvings(v) == IF 2 * v > P THEN <<v, 0>> ELSE LET h == Halvings(2 * v) IN <<h[1], h[2] + 1>>
\* -ln(v), 1 <= v <= P
NegLn(v) ==
    LET h == Halvings(v)
        i == (h[1] - P \div 2) \div 8192
        d == MulU(h[1] - P \div 2 - 8192 * i, InvTab[i + 1]) IN
    h[2] * Ln2 + LnTab[i + 1] - (d - (d * d) \div (2 * P) + (((d * d) \div P) * d) \div (3 * P))
\* v^(n/d) for 0 <= v <= P
PowP(v, n, d) ==
    IF n = 0 THEN P ELSE IF v <= 0 THEN 0 ELSE IF v >= P THEN P
    ELSE LET g == NegLn(v) IN
         IF g \div d > (14 * P) \div n THEN 0 ELSE ExpNeg((g \div d) * n + ((g % d) * n + d \div 2) \div d)
\* v^x with an exponent x scaled by P, 0 <= x < 512 P
PowX(v, x) ==
    IF x = 0 THEN P ELSE IF v <= 0 THEN 0 ELSE IF v >= P THEN P
    ELSE LET g == NegLn(v)
             xi == x \div P           \* whole part
             xf == x % P
             whole == IF xi > 0 /\ g > (14 * P) \div xi THEN 14 * P ELSE g * xi
             gh == g \div P           \* g = gh * P + gl
             gl == g % P IN
         ExpNeg(whole + gh * xf + MulU(gl, xf))
CbrtP(v) == IF v > P THEN 2 * PowP(v \div 8, 1, 3) ELSE PowP(v, 1, 3)         \* 0 <= v < 8P
SqrtP(v) == IF v > P THEN 2 * PowP(v \div 4, 1, 2) ELSE PowP(v, 1, 2)         \* 0 <= v < 4P

\* ---- trigonometry ------------------------------------------------------------------
STab == <<
    0, 18300, 36595, 54878, 73145, 91389, 109606, 127789, 145934, 164033, 182083, 200078, 218011,
    235878, 253673, 271391, 289027, 306574, 324028, 341383, 358634, 375776, 392803, 409711, 426494,
    443147, 459665, 476044, 492277, 508360, 524288, 540057, 555661, 571095, 586356, 601438, 616338,
    631049, 645568, 659890, 674012, 687928, 701634, 715127, 728402, 741455, 754282, 766880, 779244,
    791370, 803256, 814897, 826289, 837430, 848316, 858943, 869309, 879410, 889243, 898805, 908093,
    917105, 925838, 934288, 942454, 950333, 957922, 965219, 972223, 978930, 985339, 991448, 997255,
    1002758, 1007956, 1012847, 1017429, 1021701, 1025662, 1029311, 1032646, 1035666, 1038371,
    1040760, 1042832, 1044586, 1046022, 1047139, 1047937, 1048416, 1048576>>   \* sine of 0..90 degrees
Sin90(d) == IF d <= 90 THEN STab[d + 1] ELSE STab[181 - d]
SinD(d) == LET e == d % 360 IN IF e <= 180 THEN Sin90(e) ELSE -Sin90(e - 180)
CosD(d) == SinD(d + 90)
\* whole degrees plus a small rest (radians): addition theorem
SinNear(d, r) == LET c2 == (r * r) \div (2 * P)
                     s1 == r - (((r * r) \div P) * r) \div (6 * P) IN
                 SinD(d) + MulP(CosD(d), s1) - MulP(SinD(d), c2)
\* angle q in 1/64 degrees (P * pi / (180 * 64) = 285.9547)
Sin64(q) == SinNear(q \div 64, ((q % 64) * 285955 + 500) \div 1000)
Cos64(q) == Sin64(q + 90 * 64)
\* angle in radians scaled by P, |x| < 8P  (P * pi / 180 = 18301.1033)
SinR(x) == LET d == DivR(x, 18301) IN SinNear(d, x - d * 18301 - (d * 1034) \div 10000)
PiP == 3294199
CosR(x) == SinR(x + PiP \div 2)
AtTab == <<
    0, 16383, 32757, 49116, 65451, 81754, 98018, 114234, 130396, 146495, 162526, 178480, 194351,
    210133, 225819, 241403, 256879, 272241, 287485, 302606, 317598, 332457, 347179, 361761, 376198,
    390488, 404627, 418613, 432444, 446116, 459629, 472981, 486170, 499195, 512055, 524750, 537279,
    549642, 561839, 573869, 585734, 597433, 608967, 620337, 631544, 642589, 653472, 664195, 674760,
    685167, 695419, 705516, 715461, 725255, 734899, 744396, 753748, 762956, 772022, 780948, 789736,
    798389, 806907, 815293, 823550>>     \* atan(i/64)
AtanU(t) ==      \* 0 <= t <= P
    LET i == t \div 16384
        t0 == i * 16384
        d == DivP(t - t0, P + MulU(t, t0)) IN
    AtTab[i + 1] + d - (((d * d) \div P) * d) \div (3 * P)
Atan2P(y, x) ==
    LET ax == AbsI(x)  ay == AbsI(y)
        a == IF ax = 0 /\ ay = 0 THEN 0 ELSE IF ay <= ax THEN AtanU(DivP(ay, ax)) ELSE PiP \div 2 - AtanU(DivP(ax, ay))
        b == IF x < 0 THEN PiP - a ELSE a IN
    IF y < 0 THEN -b ELSE b
\* tanh of x >= 0
TanhP(x) == LET e == ExpNeg(2 * x) IN DivP(P - e, P + e)
======================================================================================
