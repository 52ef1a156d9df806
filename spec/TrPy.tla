----------------------------------- MODULE TrPy -----------------------------------
(* Recorded Python programs next to the library's own answers.                               *)
EXTENDS PyApi, Json, IOUtils
VARIABLES l, slots
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(m, after) == /\ Cardinality({after[i][1] : i \in DOMAIN after}) = Len(after)
                /\ {after[i][1] : i \in DOMAIN after} = DOMAIN m
                /\ \A i \in DOMAIN after : m[after[i][1]] = after[i][2]
Same(p, r) == /\ p.k = r.k
              /\ (r.k = "ok" => p.img = r.img /\ p.val = r.val)
              /\ (r.k = "err" => r.why \in {"", p.why})            \* the exception says what the library says
Call(e) ==
    /\ e.f \in Names /\ Len(e.given) = Arity(e.f) /\ Len(e.ins) \in Inputs(e.f)
    /\ e.fact.f = LibName(e.f) /\ e.fact.a = LibArgs(e.f, e.given) /\ e.fact.ins = Held(slots, e.ins)
    /\ Same(e.py, e.fact)
    /\ slots' = AfterCall(slots, e.f, e.ins, e.dst, e.fact)
    /\ Is(slots', e.after)
\* an object got from or given to an image is changed: the image is not
Poke(e) == slots' = slots /\ Is(slots, e.after)
\* the image a program compares with is that of the library, pixel by pixel
List(e) == slots' = slots /\ slots[e.slot] = e.img /\ e.px = e.fact
Noisy(e) == /\ e.ok /\ (NoiseStep(e.k, e.t, e.px, e.qx, 4) = TRUE) /\ e.nw = e.w /\ e.nh = e.h
            /\ slots' = (IF e.inplace THEN Set(slots, e.slot, e.result) ELSE slots) /\ Is(slots', e.after)
Stat(e) == (StatOk(e) = TRUE) /\ slots' = slots
Color(e) ==
    LET c == ColorCall(e.t, e.m, e.a) IN
    /\ slots' = slots
    /\ IF e.m \in {"to_lab", "to_lch"} /\ c.a[1] = "unknown" THEN e.py.k = "err" /\ e.py.self = e.v
       ELSE /\ e.fact.t = c.t /\ e.fact.m = c.m /\ e.fact.a = c.a /\ e.fact.v = e.v
            /\ e.py.k = e.r.k
            /\ (e.r.k = "err" => e.r.why \in {"", e.py.why})
            /\ (e.r.k = "ok" => e.py.t = e.r.t /\ e.py.val = e.r.val)
            /\ e.py.self = (IF e.m = "set" THEN e.r.self ELSE e.v)
Make(e) ==
    LET t == MadeType(e.kind, e.ill, e.obs) IN
    /\ slots' = slots
    /\ IF t = "unknown" THEN e.py.k = "err"
       ELSE e.py.k = "ok" /\ e.py.t = t /\ e.py.val = e.c[1] \o "," \o e.c[2] \o "," \o e.c[3] \o "," \o MadeAlpha(e.alpha)
Ok(e) ==
    CASE e.op = "reset" -> slots' = <<>>
      [] e.op = "call" -> Call(e)
      [] e.op = "poke" -> Poke(e)
      [] e.op = "list" -> List(e)
      [] e.op = "noise" -> Noisy(e)
      [] e.op = "stat" -> Stat(e)
      [] e.op = "color" -> Color(e)
      [] e.op = "make" -> Make(e)
TrInit == l = 1 /\ slots = <<>>
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_<<l, slots>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
