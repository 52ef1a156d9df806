--------------------------------- MODULE TrText ---------------------------------
EXTENDS Text, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ok(e) ==
    CASE e.op = "equal" -> e.eq = SameColor(e.a, e.b) /\ e.qe = e.eq /\ e.ne = ~e.eq
      [] e.op = "print" -> e.name = ModelName(e.model) /\ e.text \in Printed(e.name, e.c) /\ e.transparent = Transparent(e.c)
      [] e.op = "mirror" -> \E k \in {e.n, e.n + 1} :
                              /\ e.a = Around(e.model, e.i, e.clear, Decimal(k))
                              /\ \/ e.b = Around(e.model, e.i, e.clear, Decimal(-k))
                                 \/ k = 0 /\ e.b = Around(e.model, e.i, e.clear, "-0.0")
      [] e.op = "image" -> e.transparent = AnyTransparent(e.px) /\ e.buf = e.transparent /\ GreyMayBe(e.px, e.grey) /\ e.bgrey = e.grey
                           /\ e.other = e.transparent
      [] e.op = "parse" -> LET r == Parsed(e.opt, e.text) IN
                           e.ok = r[1] /\ (IF e.ok THEN e.mode = r[2] ELSE e.msg = r[2] /\ e.input = e.text /\ e.type = e.opt)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
