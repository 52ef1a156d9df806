---------------------------------- MODULE TrColor ----------------------------------
(* Recorded conversions: every value is the defined function of the colour and every   *)
(* way back returns the colour.                                                         *)
EXTENDS Color, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rgb3(c) == <<c[1], c[2], c[3]>>
Near3(a, b, t) == \A i \in 1..3 : Close(a[i], b[i], t)
White4(m) ==
    CASE m \in {"lab", "lch"}  -> White("D65", 2)
      [] m = "labD50"          -> White("D50", 2)
      [] m = "labO10"          -> White("D65", 10)
      [] m = "lchD50O10"       -> White("D50", 10)
      [] m \in {"lchE", "labE"} -> White("E", 2)
Labs == {"lab", "labD50", "labO10", "labE"}
Lchs == {"lch", "lchE", "lchD50O10"}
Models == {"rgb", "srgb", "hsl", "hsv", "yuv", "xyz"} \cup Labs \cup Lchs
Around(a, b, full, t) == LET d == AbsI(a - b) IN d <= t \/ d >= full - t
TwoPi == 6588397
\* the library treats channels closer than 1/32768 = 32 units as equal
HexOk(v, q, c, den) ==
    LET ch == Chroma(c) IN
    /\ Close(v[3], q[3], 2)
    /\ IF ch > 34 THEN /\ Close(v[2], q[2], 6 + (4 * P) \div Max2(den, 1))
                       /\ v[1] >= -40 /\ v[1] <= 6 * P + 40
                       /\ Around(v[1], q[1], 6 * P, 40 + (64 * P) \div ch)
       ELSE /\ v[1] >= 0 /\ v[1] <= 6 * P /\ v[2] >= 0 /\ v[2] <= P
LchOk(v, q) ==
    LET h == LabToLch(q) IN
    /\ Close(v[1], h[1], 30) /\ Close(v[2], h[2], 150)
    /\ AbsI(v[3]) <= TwoPi \div 2 + 40
    /\ h[2] > 6000 => Around(v[3], h[3], TwoPi, 60 + 150 * (1 + P \div h[2]))
\* v: the converted value, c: the colour
ValueOk(m, v, c) ==
    /\ Len(v) = 4
    /\ CASE m = "rgb"  -> Rgb3(v) = Rgb3(c)
         [] m = "srgb" -> Near3(v, ToSrgb(c), 12)
         [] m = "hsl"  -> LET s == Max3(c[1], c[2], c[3]) + Min3(c[1], c[2], c[3]) IN HexOk(v, HslOf(c), c, IF s > P THEN 2 * P - s ELSE s)
         [] m = "hsv"  -> HexOk(v, HsvOf(c), c, Max3(c[1], c[2], c[3]))
         [] m = "yuv"  -> Near3(v, ToYuv(c), 20)
         [] m = "xyz"  -> Near3(v, ToXyz(c), 4)
         [] m \in Labs -> LET q == ToLab(c, White4(m)) IN Close(v[1], q[1], 30) /\ Close(v[2], q[2], 120) /\ Close(v[3], q[3], 120)
         [] m \in Lchs -> LchOk(v, ToLab(c, White4(m)))
\* converted from another model first: the same within rounding of that model
Back == 48
CrossOk(m, v, c) ==
    /\ Len(v) = 4
    /\ CASE m \in {"rgb", "xyz"} -> Near3(v, IF m = "rgb" THEN c ELSE ToXyz(c), 2 * Back)
         [] m \in {"srgb", "yuv"} -> Near3(v, IF m = "srgb" THEN ToSrgb(c) ELSE ToYuv(c), 14 * Back)
         [] m \in {"hsl", "hsv"} ->
               LET q == IF m = "hsl" THEN HslOf(c) ELSE HsvOf(c)
                   mx == Max3(c[1], c[2], c[3])
                   s == mx + Min3(c[1], c[2], c[3])
                   den == IF m = "hsv" THEN mx ELSE IF s > P THEN 2 * P - s ELSE s IN
               /\ Close(v[3], q[3], Back)
               /\ Chroma(c) > 1000 => /\ Around(v[1], q[1], 6 * P, (3 * Back * P) \div Chroma(c))
                                      /\ Close(v[2], q[2], (3 * Back * P) \div den)
         [] m \in Labs -> LET q == ToLab(c, White4(m)) IN Close(v[1], q[1], 10 * Back) /\ Close(v[2], q[2], 60 * Back) /\ Close(v[3], q[3], 60 * Back)
         [] m \in Lchs -> LET q == LabToLch(ToLab(c, White4(m))) IN
                          /\ Close(v[1], q[1], 10 * Back) /\ Close(v[2], q[2], 60 * Back)
                          /\ q[2] > 60000 => Around(v[3], q[3], TwoPi, 60 * Back * (1 + P \div q[2]))
BackOk(m, b, c) == Len(b) = 4 /\ Near3(b, c, Back) /\ b[4] = c[4]
Ok(e) ==
    /\ e.ok
    /\ CASE e.op = "color" -> /\ DOMAIN e.m = Models
                              /\ \A m \in Models : ValueOk(m, e.m[m].v, e.c) /\ e.m[m].v[4] = e.c[4] /\ BackOk(m, e.m[m].back, e.c)
         [] e.op = "cross" -> CrossOk(e.to, e.v, e.c) /\ e.v[4] = e.c[4] /\ BackOk(e.to, e.back, e.c)
         [] e.op = "bulk"  -> e.nw = e.w /\ e.nh = e.h /\ Len(e.all) = e.w * e.h /\ e.all = e.one
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=====================================================================================
